From c4731addb471f0eb95496b70094f1f676e0fd559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 001/173] fix: remove_isolated_vertices takes Z-box labels and
 leg-less W nodes into account

---
 pyzx/graph/base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7420213..2710f90 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -28,7 +28,7 @@ from ..utils import EdgeType, VertexType, get_z_box_label, set_z_box_label, togg
 from ..utils import FloatInt, FractionLike
 from ..tensor import tensorfy, tensor_to_matrix
 
-from .scalar import Scalar
+from .scalar import Scalar, cexp
 
 if TYPE_CHECKING:
     from .. import simplify
@@ -778,6 +778,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif ty == VertexType.Z_BOX:
+                    self.scalar.add_float(1 + get_z_box_label(self, v))
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -793,7 +795,16 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if t1==t2:
+                if et == EdgeType.W_IO: continue # A W node without legs is the scalar 1
+                if t1 == VertexType.Z_BOX or t2 == VertexType.Z_BOX:
+                    l1 = get_z_box_label(self, v) if t1 == VertexType.Z_BOX else cexp(self.phase(v))
+                    l2 = get_z_box_label(self, w) if t2 == VertexType.Z_BOX else cexp(self.phase(w))
+                    if (vertex_is_z_like(t1) == vertex_is_z_like(t2)) == (et == EdgeType.SIMPLE):
+                        self.scalar.add_float(1 + l1*l2)
+                    else:
+                        self.scalar.add_power(-1)
+                        self.scalar.add_float(1 + l1 + l2 - l1*l2)
+                elif t1==t2:
                     if et == EdgeType.SIMPLE:
                         self.scalar.add_node(self.phase(v)+self.phase(w))
                     else:
-- 
2.43.0


From 11d400fe02513492eae86531d21fedbe418f25f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 002/173] fix: bialgebra rewrite tracks the global scalar

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 708a624..9422c90 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -139,6 +139,7 @@ def bialg(g: BaseGraph[VT,ET], matches: List[MatchBialgType[VT]]) -> RewriteOutp
         rem_verts.append(m[0])
         rem_verts.append(m[1])
         es = [(i,j) for i in m[2] for j in m[3]]
+        g.scalar.add_power((len(m[2])-1)*(len(m[3])-1))
         for e in es:
             if e in etab: etab[e][0] += 1
             else: etab[e] = [1,0]
-- 
2.43.0


From bf9d796092afadb4c35765200dd39a5d2eb24aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 003/173] fix: match_copy only returns non-interacting matches

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 9422c90..36e38aa 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -986,6 +986,7 @@ def match_copy(
         m.append((v,w,phases[v],phases[w],neigh))
         candidates.discard(w)
         candidates.difference_update(neigh)
+        for n in neigh: candidates.difference_update(g.neighbors(n)) # copying these through n would interact
 
     return m
 
-- 
2.43.0


From ab34c148fdf485b798f7ed90fdb75fd9411102c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 004/173] fix: removing isolated discarded (ground) spiders
 gives the right scalar

---
 pyzx/graph/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 2710f90..6d2a398 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -776,6 +776,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 ty = self.type(v)
                 if ty == VertexType.BOUNDARY:
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
+                elif self.is_ground(v): self.scalar.add_power(1) # Discarding a state of squared norm 2
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
                 elif ty == VertexType.Z_BOX:
@@ -790,6 +791,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 # At this point w and v are only connected to each other
                 rem.append(v)
                 rem.append(w)
+                if self.is_ground(v) or self.is_ground(w):
+                    self.scalar.add_power(1) # Discarding a state of squared norm 2
+                    continue
                 et = self.edge_type(self.edge(v,w))
                 t1 = self.type(v)
                 t2 = self.type(w)
-- 
2.43.0


From 0353ade60dda4cfa0bd3d71ae538b39513459c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 005/173] fix: match_supplementarity does not match a legless
 spider twice

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 36e38aa..50ff196 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -910,6 +910,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
         par = frozenset(neigh)
         if par in parities:
             for w in parities[par]:
+                if w in taken: continue
                 if (phases[v]-phases[w]) % 2 == 1 or (phases[v]+phases[w]) % 2 == 1:
                     m.append((v,w,1,par))
                     taken.update({v,w})
-- 
2.43.0


From 08b9750562fedeab5d14548030912fc61aa6f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 006/173] fix: Multigraph.add_edge can simplify away a
 self-loop

---
 pyzx/graph/multigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e3eaf1a..ed649ec 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -198,7 +198,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                         e.s = e.s % 2
             if e.is_empty():
                 del self.graph[s][t]
-                del self.graph[t][s]
+                if s != t: del self.graph[t][s]
 
         return (s,t, edgetype) if s <= t else (t,s,edgetype)
 
-- 
2.43.0


From 0e3980d4f625fed7b37cd2be3480a2fe6bd24dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 007/173] fix: Multigraph.vertex_degree counts W_IO edges and
 both ends of a self-loop

---
 pyzx/graph/multigraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index ed649ec..0adde55 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -318,9 +318,9 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def vertex_degree(self, vertex):
         d = 0
-        for e in self.graph[vertex].values():
-            d += e.s
-            d += e.h
+        for v1, e in self.graph[vertex].items():
+            n = e.s + e.h + e.w_io
+            d += 2*n if v1 == vertex else n # a self-loop has both its ends here
         return d
 
     def incident_edges(self, vertex):
-- 
2.43.0


From 9ec71ff3a0a49cfd1f013d23b7a416ecface28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 008/173] fix: rule matchers accept the edge multiset of a
 Multigraph

---
 pyzx/rules.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 50ff196..8ac1208 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -100,7 +100,7 @@ def match_bialg_parallel(
     :rtype: List of 4-tuples ``(v1, v2, neighbors_of_v1,neighbors_of_v2)``
     """
     if matchf is not None: candidates = set([e for e in g.edges() if matchf(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     phases = g.phases()
     types = g.types()
 
@@ -168,7 +168,7 @@ def match_spider_parallel(
     :rtype: List of 2-tuples ``(v1, v2)``
     """
     if matchf is not None: candidates = set([e for e in g.edges() if matchf(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     candidates = set(candidates)
     types = g.types()
 
@@ -327,7 +327,7 @@ def match_w_fusion_parallel(
     :rtype: List of 2-tuples ``(v1, v2)``
     """
     if matchf is not None: candidates = set([e for e in g.edges() if matchf(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     types = g.types()
 
     i = 0
@@ -403,7 +403,7 @@ def match_pivot_parallel(
     :rtype: List of 4-tuples. See :func:`pivot` for the details.
     """
     if matchf is not None: candidates = set([e for e in g.edges() if matchf(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     types = g.types()
     phases = g.phases()
 
@@ -467,7 +467,7 @@ def match_pivot_gadget(
     Pauli vertices, it looks for a pair of an interior Pauli vertex and an
     interior non-Clifford vertex in order to gadgetize the non-Clifford vertex."""
     if matchf is not None: candidates = set([e for e in g.edges() if matchf(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     types = g.types()
     phases = g.phases()
     rs = g.rows()
-- 
2.43.0


From 1d3ef6b4e4f00f2d9d618749b962dbeeee976a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:37 +0000
Subject: [PATCH 009/173] fix: Multigraph.add_edge uses the right scalar when
 cancelling parallel edges

---
 pyzx/graph/multigraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 0adde55..4c05eec 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -190,11 +190,11 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                 else: # apply spider and hopf to merge/cancel parallel edges
                     if t1 == t2:
                         e.s = 1 if e.s > 0 else 0
-                        self.scalar.add_power(-2 * (e.h - (e.h % 2)))
+                        self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
                     else:
                         e.h = 1 if e.h > 0 else 0
-                        self.scalar.add_power(-2 * (e.s - (e.s % 2)))
+                        self.scalar.add_power(-(e.s - (e.s % 2)))
                         e.s = e.s % 2
             if e.is_empty():
                 del self.graph[s][t]
-- 
2.43.0


From 427dccec00dd9035c68f05faf93c7b9f403214fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 010/173] fix: Multigraph.add_edge treats Z spiders and Z-boxes
 as the same colour

---
 pyzx/graph/multigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 4c05eec..01ef218 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -188,7 +188,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                     self.scalar.add_power(-e.h)
                     e.h = 0
                 else: # apply spider and hopf to merge/cancel parallel edges
-                    if t1 == t2:
+                    if vertex_is_z_like(t1) == vertex_is_z_like(t2): # same colour
                         e.s = 1 if e.s > 0 else 0
                         self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
-- 
2.43.0


From cbbd8e34efa886a2ea89f82862193f1aa38f702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 011/173] fix: match_pivot_boundary does not pivot around
 discarded (ground) spiders

---
 pyzx/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 8ac1208..934e0ab 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -566,7 +566,7 @@ def match_pivot_boundary(
             if n in consumed_vertices:
                 good_vert = False
                 break
-            if g.is_ground(n) in consumed_vertices:
+            if g.is_ground(n):
                 good_vert = False
                 break
             boundaries: List[VT] = []
-- 
2.43.0


From 83c35c4d34081aa906dce7a65f7e961ca8f8c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 012/173] fix: to_gh and to_rg leave the type of self-loops
 alone

---
 pyzx/simplify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a0cda7f..5e39280 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -280,6 +280,7 @@ def to_gh(g: BaseGraph[VT,ET],quiet:bool=True) -> None:
         if ty[v] == VertexType.X:
             g.set_type(v, VertexType.Z)
             for e in g.incident_edges(v):
+                if g.edge_s(e) == g.edge_t(e): continue # both ends of a self-loop change colour
                 et = g.edge_type(e)
                 g.set_edge_type(e, toggle_edge(et))
 
@@ -299,6 +300,7 @@ def to_rg(g: BaseGraph[VT,ET], select:Optional[Callable[[VT],bool]]=None) -> Non
         if select(v) and vertex_is_zx(ty[v]):
             g.set_type(v, toggle_vertex(ty[v]))
             for e in g.incident_edges(v):
+                if g.edge_s(e) == g.edge_t(e): continue # both ends of a self-loop change colour
                 g.set_edge_type(e, toggle_edge(g.edge_type(e)))
 
 def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
-- 
2.43.0


From 7393ac39d74d63fc81b5189416c9556a6702f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 013/173] fix: to_graph_like keeps the Hadamard of a wire
 between two boundaries

---
 pyzx/simplify.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 5e39280..6229c05 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -477,6 +477,13 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
             assert(g.type(n) in [VertexType.BOUNDARY, VertexType.H_BOX])
             if g.type(n) == VertexType.BOUNDARY:
                 z1 = g.add_vertex(ty=VertexType.Z)
+                if g.edge_type(g.edge(v, n)) == EdgeType.HADAMARD:
+                    z2 = g.add_vertex(ty=VertexType.Z)
+                    g.remove_edge(g.edge(v, n))
+                    g.add_edge((v, z1), edgetype=EdgeType.SIMPLE)
+                    g.add_edge((z1, z2), edgetype=EdgeType.HADAMARD)
+                    g.add_edge((z2, n), edgetype=EdgeType.SIMPLE)
+                    continue
                 z2 = g.add_vertex(ty=VertexType.Z)
                 z3 = g.add_vertex(ty=VertexType.Z)
                 g.remove_edge(g.edge(v, n))
-- 
2.43.0


From 4ecc4cc6e7cbb1abe10ad057bec36b538d6f0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 014/173] fix: Multigraph.remove_edge and set_edge_type accept
 the edges that Multigraph.edge returns

---
 pyzx/graph/multigraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 01ef218..e4323cc 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -237,7 +237,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             self.remove_edge(e)
 
     def remove_edge(self, edge):
-        s,t,ty = edge
+        s,t = edge[0], edge[1]
+        ty = self.edge_type(edge)
         e = self.graph[s][t]
         if ty == EdgeType.SIMPLE: e.remove(s=1)
         elif ty == EdgeType.HADAMARD: e.remove(h=1)
@@ -340,7 +341,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return e[2]
 
     def set_edge_type(self, edge, t):
-        v1,v2,ty = edge
+        v1,v2 = edge[0], edge[1]
+        ty = self.edge_type(edge)
         if ty != t:
             e = self.graph[v1][v2]
             # decrement the old type and increment the new type
-- 
2.43.0


From 9c06890e7b8912ec54cf61deadbdf77bfd73d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 015/173] fix: gadget and boundary pivot matchers require
 Hadamard edges

---
 pyzx/rules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 934e0ab..710d7ab 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -516,6 +516,7 @@ def match_pivot_gadget(
         if any(types[w]!=VertexType.Z for w in v0n): continue
         if any(types[w]!=VertexType.Z for w in v1n): continue
         # Both v0 and v1 are interior
+        if any(g.edge_type(ne) != EdgeType.HADAMARD for v in (v0,v1) for ne in g.incident_edges(v)): continue
 
         v = g.add_vertex(VertexType.Z,-2,rs[v0],v1a)
         g.set_phase(v1, 0)
@@ -585,6 +586,8 @@ def match_pivot_boundary(
                 w = n
                 bound = boundaries[0]
         if not good_vert or w is None: continue
+        if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(v)): continue
+        if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(w) if bound not in g.edge_st(e)): continue
         if bound in inputs: mod = 0.5
         else: mod = -0.5
         v1 = g.add_vertex(VertexType.Z,-2,rs[w]+mod,phases[w])
@@ -846,6 +849,8 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
             if n in gadgets: continue # Not a real phase gadget (happens for scalar diagrams)
             if n in inputs or n in outputs: continue # Not a real phase gadget (happens for non-unitary diagrams)
+            if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(n)
+                   if not any(w in inputs or w in outputs for w in g.edge_st(e))): continue # Diagram is not graph-like here
             gadgets[n] = v
             par = frozenset(set(g.neighbors(n)).difference({v}))
             if par in parities: parities[par].append(n)
-- 
2.43.0


From 68181aa32d0fa326ef6e8500547652ae366aeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 016/173] fix: to_clifford_normal_form_graph keeps the edge
 type of inputs and outputs with a phase

---
 pyzx/simplify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 6229c05..d8aaf7a 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -557,7 +557,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,i)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=1, phase=g.phase(v))
-            g.add_edge((i,h),EdgeType.HADAMARD)
+            g.add_edge((i,h),g.edge_type(e))
             g.add_edge((h,v),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
@@ -569,7 +569,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,o)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=7, phase=g.phase(v))
-            g.add_edge((h,o),EdgeType.HADAMARD)
+            g.add_edge((h,o),g.edge_type(e))
             g.add_edge((v,h),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
-- 
2.43.0


From a712576e025b163321ef70589e25c7d9d160d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 017/173] fix: pi_commute_Z does not iterate over changing
 neighbours and tracks the scalar

---
 pyzx/basicrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 18eebc0..9015bfa 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -141,8 +141,9 @@ def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
 
 def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     if not check_pi_commute_Z(g, v): return False
+    g.scalar.add_phase(g.phase(v))
     g.set_phase(v, -g.phase(v))
-    ns = g.neighbors(v)
+    ns = list(g.neighbors(v))
     for w in ns:
         e = g.edge(v, w)
         et = g.edge_type(e)
-- 
2.43.0


From d4f1ecddfe9d5f2deaca92a0d9487f710497a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 018/173] fix: basicrules.remove_id only removes spiders

---
 pyzx/basicrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 9015bfa..c9f005d 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -49,7 +49,7 @@ from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusion, z_to_z_box
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
-                    set_z_box_label, vertex_is_w, vertex_is_z_like, toggle_vertex, toggle_edge)
+                    set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx, toggle_vertex, toggle_edge)
 
 def color_change_diagram(g: BaseGraph[VT,ET]):
     """Color-change an entire diagram by applying Hadamards to the inputs and ouputs."""
@@ -244,7 +244,7 @@ def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
-    elif g.type(v) != VertexType.Z_BOX and g.phase(v) == 0:
+    elif vertex_is_zx(g.type(v)) and g.phase(v) == 0:
         return True
     return False
 
-- 
2.43.0


From 44fb78b9888037a8ad7baa28ad7a995906cfb1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 019/173] fix: the editor does not add identities on the
 internal edge of a W node

---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 25b119f..38214e1 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -154,7 +154,7 @@ def match_edge(
         ) -> List[ET]:
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
     else: candidates = g.edge_set()
-    return list(candidates)
+    return [e for e in candidates if g.edge_type(e) != EdgeType.W_IO]
 
 
 def euler_expansion(g: BaseGraph[VT,ET], 
-- 
2.43.0


From 7e2b77049eb023a13e69ccc1881c9840be797cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 020/173] fix: editor bialgebra of an X-spider and an H-box has
 the right scalar

---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 38214e1..06cae79 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -273,7 +273,7 @@ def bialgebra(g: BaseGraph[VT,ET],
             g.scalar.add_power((g.vertex_degree(v)-2)*(g.vertex_degree(w)-2))
         else: #g.type(w) == VertexType.H_BOX
             t = VertexType.Z
-            g.scalar.add_power(g.vertex_degree(v)-2)
+            g.scalar.add_power(-(g.vertex_degree(v)-2))
         for n in g.neighbors(w):
             if n == v: continue
             r = 0.6*g.row(w) + 0.4*g.row(n)
-- 
2.43.0


From f9cc913ee7fd0a8b2ccc445e7c543aa4252493f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 021/173] fix: pushing a Pauli through a ternary H-box tracks
 the scalar

---
 pyzx/editor_actions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 06cae79..9208dfc 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -131,6 +131,7 @@ def pauli_push(g: BaseGraph[VT,ET],
         if not vertex_is_zx(g.type(v)): # v is H_BOX
             if len(new_verts) == 2:
                 etab[upair(new_verts[0],new_verts[1])] = [0,1]
+                g.scalar.add_power(1) # an H-edge is an H-box divided by sqrt(2)
             else:
                 r = (g.row(v) + sum(g.row(n) for n in new_verts)) / (len(new_verts) + 1)
                 q = (g.qubit(v) + sum(g.qubit(n) for n in new_verts))/(len(new_verts)+1)
-- 
2.43.0


From 681797ff75587dc6a2e4fb734aabbab4179d6f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 022/173] fix: pauli_push only gets non-interacting matches and
 handles a Pauli between adjacent spiders

---
 pyzx/editor_actions.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 9208dfc..c6c091b 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -18,7 +18,7 @@
 import json
 from fractions import Fraction
 
-from typing import Callable, Optional, List, Dict, Tuple
+from typing import Callable, Optional, List, Dict, Set, Tuple
 
 from .utils import EdgeType, VertexType, FractionLike
 from .utils import toggle_edge, vertex_is_zx, toggle_vertex
@@ -69,11 +69,13 @@ def pauli_matcher(
     paulis = {v for v in candidates
                 if phases[v] == 1 and vertex_is_zx(types[v])}
     if not paulis: return m
+    taken: Set[VT] = set()
     while len(candidates) > 0:
         v = candidates.pop()
         if v in paulis and g.vertex_degree(v) == 2: continue
+        if v in taken: continue
         for w in g.neighbors(v):
-            if w in paulis: break
+            if w in paulis and w not in taken: break
         else:
             continue
         et = g.edge_type(g.edge(v,w))
@@ -84,8 +86,9 @@ def pauli_matcher(
                 (et == EdgeType.HADAMARD and types[w] == VertexType.Z)))
             ):
             m.append((w,v))
-            candidates.difference_update(g.neighbors(v))
-            candidates.difference_update(g.neighbors(w))
+            taken.update((v,w))
+            taken.update(g.neighbors(v))
+            taken.update(g.neighbors(w))
     return m
 
 
@@ -94,7 +97,6 @@ def pauli_push(g: BaseGraph[VT,ET],
                ) -> rules.RewriteOutputType[VT,ET]:
     """Pushes a Pauli (i.e. a pi phase) through another spider."""
     rem_verts: List[VT] = []
-    rem_edges: List[ET] = []
     etab: Dict[Tuple[VT,VT], List[int]] = dict()
     for w,v in matches:  # w is a Pauli and v is the spider we are gonna push it through
         if g.vertex_degree(w) == 2:
@@ -117,13 +119,13 @@ def pauli_push(g: BaseGraph[VT,ET],
         else: 
             t = VertexType.Z
             p = 0
-        for n in g.neighbors(v):
+        for n in list(g.neighbors(v)):
             if n == w: continue
             r = 0.5*(g.row(n) + g.row(v))
             q = 0.5*(g.qubit(n) + g.qubit(v))
             e = g.edge(n,v)
             et = g.edge_type(e)
-            rem_edges.append(e)
+            g.remove_edge(e) # removed now, since w may give a new edge between n and v
             w2 = g.add_vertex(t,q,r,p)
             etab[upair(v,w2)] = [1,0]
             etab[upair(n,w2)] = [1,0] if et == EdgeType.SIMPLE else [0,1]
@@ -137,7 +139,7 @@ def pauli_push(g: BaseGraph[VT,ET],
                 q = (g.qubit(v) + sum(g.qubit(n) for n in new_verts))/(len(new_verts)+1)
                 h = g.add_vertex(VertexType.H_BOX,q,r,Fraction(1))
                 for n in new_verts: etab[upair(h,n)] = [1,0]
-    return (etab, rem_verts, rem_edges, False)
+    return (etab, rem_verts, [], False)
 
 
 def match_hadamard_edge(
-- 
2.43.0


From 4b9c573c0ffcf51055542fcce20315a18302c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 023/173] fix: pi_commute_Z puts a pi phase on the spiders it
 inserts

---
 pyzx/basicrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index c9f005d..db33b49 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -154,7 +154,8 @@ def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
             g.remove_edge(e)
             c = g.add_vertex(VertexType.X,
                     qubit=0.5*(g.qubit(v) + g.qubit(w)),
-                    row=0.5*(g.row(v) + g.row(w)))
+                    row=0.5*(g.row(v) + g.row(w)),
+                    phase=1)
             g.add_edge((v, c))
             g.add_edge((c, w), edgetype=et)
     return True
-- 
2.43.0


From 73bbff966a75eb1618a1f09a99273cab2c10a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 024/173] fix: from_hypergraph_form does not fuse H-boxes
 across Hadamard edges

---
 pyzx/hsimplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index f20e572..a049b99 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -118,7 +118,7 @@ def from_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
     for h in hs:
         if g.vertex_degree(h) == 1:
             n = next(iter(g.neighbors(h)))
-            if types[n] == VertexType.Z:
+            if types[n] == VertexType.Z and g.edge_type(g.edge(h,n)) == EdgeType.SIMPLE:
                 g.set_phase(n, phases[n] + phases[h])
                 g.remove_vertex(h)
     hadamard_simp(g,quiet=True)
-- 
2.43.0


From 345d4dfcde5d6be1bf5bcdde4e400e3ca3a45ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 025/173] fix: match_hpivot requires phaseless Z-spiders and
 regular edges

---
 pyzx/hrules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 13d36f4..b2889e3 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -480,6 +480,7 @@ def match_hpivot(
         ): continue
 
         v0, v1 = g.neighbors(h)
+        if not all(types[v] == VertexType.Z and phases[v] == 0 and not g.is_ground(v) for v in (v0,v1)): continue
 
         v0n = set(g.neighbors(v0))
         v1n = set(g.neighbors(v1))
@@ -518,6 +519,10 @@ def match_hpivot(
             len(v1b) + len(v1h) + 1 == len(v1n)
         ): continue
 
+        # all H-boxes that take part should be connected by regular edges
+        if not all(g.edge_type(e) == EdgeType.SIMPLE
+                   for hb in [h] + v0h + v1h for e in g.incident_edges(hb)): continue
+
         degree = g.vertex_degree(v0) * g.vertex_degree(v1)
 
         if min_degree == -1 or degree < min_degree:
-- 
2.43.0


From ad3ca4eb184987001c3a4d3cc7566c8192b8e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 026/173] fix: hpivot tracks the global scalar

---
 pyzx/hrules.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index b2889e3..d433fa5 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -547,7 +547,8 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
     h, v0, v1, v0b, v1b, v0nn, v1nn = m[0]
     g.remove_vertices([v for v in g.neighbors(v0) if types[v] == VertexType.H_BOX])
     g.remove_vertices([v for v in g.neighbors(v1) if types[v] == VertexType.H_BOX])
-    g.scalar.add_power(2) # Applying a Fourier Hyperpivot adds a scalar of 2
+    # Applying a Fourier Hyperpivot adds a scalar of 2, or sqrt(2) when a boundary is pivoted
+    g.scalar.add_power(2 - len(v0b) - len(v1b))
     
     if len(v0b) == 0:
         g.remove_vertex(v0)
@@ -571,8 +572,9 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             for vvs in combinations(v0nn, weight):
                 us = tuple(sorted(sum(vvs, ws)))
 
-                # TODO: check if this is the right thing to do (and update scalar)
-                if len(us) == 0: continue
+                if len(us) == 0: # An H-box without legs is just a number
+                    g.scalar.add_phase(f_phase)
+                    continue
 
                 # if us in hboxes:
                 #     h0 = hboxes[us]
-- 
2.43.0


From c854d28ecad7c8b222fb37d29fc73daea769ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 027/173] fix: hpivot connects a new H-box once to a spider
 shared by several H-boxes

---
 pyzx/hrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index d433fa5..6434a6e 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -570,7 +570,7 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             f_phase = (phase * phase_mult) % 2
             if f_phase == 0: continue
             for vvs in combinations(v0nn, weight):
-                us = tuple(sorted(sum(vvs, ws)))
+                us = tuple(sorted(set(sum(vvs, ws)))) # x*x = x
 
                 if len(us) == 0: # An H-box without legs is just a number
                     g.scalar.add_phase(f_phase)
-- 
2.43.0


From 5fddc29820808fbcd8ee8fe9793857284badb9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 028/173] fix: match_hbox_parallel_not requires a Z-spider on a
 regular edge

---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 6434a6e..0e2def1 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -235,6 +235,7 @@ def match_hbox_parallel_not(
             if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
             if not g.connected(v,h): continue
+            if types[v] != VertexType.Z or g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
             if not is_NOT_gate(g,n,h,v):
                 continue
             break
-- 
2.43.0


From a108044ac7f33730763ad0a957cb07352dddc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 029/173] fix: match_par_hbox_intro skips H-boxes connected to
 a spider both directly and via a NOT

---
 pyzx/hrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 0e2def1..a7aade4 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -394,7 +394,7 @@ def match_par_hbox_intro(
                         break
                     neighbors_NOT.add(w)
                     NOTs.append(v)
-        if not suitable: continue
+        if not suitable or not neighbors_regular.isdisjoint(neighbors_NOT): continue
         group = frozenset(neighbors_regular | neighbors_NOT)
         if group not in groupings: 
             groupings[group] = [(h,NOTs, neighbors_regular, neighbors_NOT, neighbors_single)]
-- 
2.43.0


From c64e89a53f6481b6f5dabc78928a53826e5d3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 030/173] fix: reducing a Poly modulo 2 keeps the coefficients
 of continuous variables

---
 pyzx/symbolic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 152b888..c52b4c3 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -227,7 +227,10 @@ class Poly:
         return self * (self ** (other - 1))
 
     def __mod__(self, other: int) -> 'Poly':
-        return Poly([(c % other, t) for c, t in self.terms if not isinstance(c, complex)])
+        # Only the coefficients of constants and products of Booleans can be reduced
+        terms = [(c % other if not isinstance(c, complex) and all(v.is_bool for v, _ in t.vars) else c, t)
+                 for c, t in self.terms]
+        return Poly([(c, t) for c, t in terms if c != 0])
 
     def __repr__(self) -> str:
         return f'Poly({str(self)})'
-- 
2.43.0


From 7eb2dcd5d7942df3fd9d4de2cb32cca8f2dbe4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 031/173] fix: match_connected_hboxes only returns
 non-interacting matches

---
 pyzx/hrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index a7aade4..8a8a975 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -75,8 +75,8 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
         m.add(e)
-        candidates.difference_update(g.incident_edges(v1))
-        candidates.difference_update(g.incident_edges(v2))
+        for n in set(g.neighbors(v1)) | set(g.neighbors(v2)): # this includes v1 and v2
+            candidates.difference_update(g.incident_edges(n))
     return list(m)
 
 def fuse_hboxes(g: BaseGraph[VT,ET], matches: List[ET]) -> rules.RewriteOutputType[VT,ET]:
-- 
2.43.0


From 57c104dd4911320f8738fb993df7977537c000c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 032/173] fix: measurements without a result bit can be
 converted to a graph

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index d4972e6..78a4f27 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1204,7 +1204,7 @@ class Measurement(Gate):
             DiscardBit(self.result_bit).to_graph(g, q_mapper, c_mapper)
         # Qubit measurement
         r = q_mapper.next_row(self.target)
-        if self.result_bit is None:
+        if self.result_bit is not None:
             r = max(r, c_mapper.next_row(self.result_bit))
         v = self.graph_add_node(g,
             q_mapper,
-- 
2.43.0


From f5fa05e6068d5acd27fe3f2c8639aa0ba39041d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 033/173] fix: Measurement.to_graph does not look up an edge
 that does not exist yet

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 78a4f27..b6d79c4 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1220,7 +1220,7 @@ class Measurement(Gate):
                 VertexType.X,
                 self.result_bit,
                 r)
-            g.add_edge(g.edge(v,u), EdgeType.SIMPLE)
+            g.add_edge((v,u), EdgeType.SIMPLE)
             c_mapper.set_next_row(self.result_bit, r+1)
 
 gate_types: Dict[str,Type[Gate]] = {
-- 
2.43.0


From 1d9bb0fa5e6483aab663e6d8bd5538f339409f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 034/173] fix: gates can be added to a circuit by the name they
 print (Tof)

---
 pyzx/circuit/gates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index b6d79c4..5cafd3a 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1248,6 +1248,7 @@ gate_types: Dict[str,Type[Gate]] = {
     "H": HAD,
     "CHAD": CHAD,
     "TOF": Tofolli,
+    "Tof": Tofolli,
     "CCZ": CCZ,
     "U2": U2,
     "U3": U3,
-- 
2.43.0


From f13ba4501d8808b3fc926a158e51c217ed579cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 035/173] fix: outputs of a circuit with ancillas do not depend
 on the hashes of the labels

---
 pyzx/circuit/gates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 5cafd3a..eb23db6 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -22,7 +22,7 @@ quantum gates for use in the Circuit class.
 import copy
 import math
 from fractions import Fraction
-from typing import Dict, List, Optional, Type, ClassVar, TypeVar, Generic, Set
+from typing import Dict, List, Optional, Type, ClassVar, TypeVar, Generic, KeysView
 
 from ..utils import EdgeType, VertexType, FractionLike
 from ..graph.base import BaseGraph, VT, ET
@@ -44,11 +44,11 @@ class TargetMapper(Generic[VT]):
         self._rows = {}
         self._prev_vs = {}
 
-    def labels(self) -> Set[int]:
+    def labels(self) -> KeysView[int]:
         """
-        Returns the mapped labels.
+        Returns the mapped labels, in the order in which they were added.
         """
-        return set(self._qubits.keys())
+        return self._qubits.keys()
 
     def to_qubit(self, l: int) -> int:
         """
-- 
2.43.0


From 2c6f14c3d932e6c8a6f8f61b80bf82947c1a2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 036/173] fix: adjoints of CSX, FSim, U2, U3, CU3 and CU gates
 are their inverses

---
 pyzx/circuit/gates.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index eb23db6..ddce601 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -463,6 +463,9 @@ class CSX(Gate):
                CPhase(self.control,self.target,Fraction(1,2)).to_basic_gates() + \
                [HAD(self.target)]
 
+    def to_adjoint(self):
+        return CU(self.control, self.target, Fraction(-1,2), Fraction(-1,2), Fraction(1,2), Fraction(-1,4))
+
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
             gate.to_graph(g, q_mapper, c_mapper)
@@ -824,8 +827,8 @@ class FSim(Gate):
     qsim_name = 'fs'
     print_phase = True
     def __init__(self, control:int, target:int, theta:FractionLike, phi:FractionLike):
-        # TODO: this version assumes theta is always (pi/2)
-        assert theta == Fraction(1, 2)
+        # TODO: this version assumes theta is always (pi/2) or (-pi/2)
+        assert theta in (Fraction(1, 2), Fraction(-1, 2))
         self.control = control
         self.target = target
         self.theta = theta
@@ -854,8 +857,11 @@ class FSim(Gate):
         #p = ZPhase(self.targets[-1], self.phase)
         return [self]
 
+    def to_adjoint(self):
+        return FSim(self.control, self.target, -self.theta, -self.phi)
+
     def to_graph(self, g, q_mapper, _c_mapper):
-        # TODO: this version assumes theta is always (pi/2)
+        # TODO: this version assumes theta is always (pi/2) or (-pi/2)
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         qmin = min(self.target,self.control)
         c0 = self.graph_add_node(g, q_mapper, VertexType.Z, self.control,r)
@@ -872,6 +878,9 @@ class FSim(Gate):
 
         g.set_phase(c, Fraction(-1,2) * self.phi)
         g.set_phase(t, Fraction(-1,2) * self.phi)
+        if self.theta == Fraction(-1,2):
+            g.add_to_phase(c, 1)
+            g.add_to_phase(t, 1)
         g.set_phase(pg1, (Fraction(1,2) * self.phi) - Fraction(1,2))
 
         g.add_edge((c, pg0), EdgeType.HADAMARD)
@@ -1056,6 +1065,9 @@ class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
         self.phi = phi
         self.phases = [theta, phi]
 
+    def to_adjoint(self):
+        return U2(self.target, 1-self.phi, 1-self.theta)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=(self.phi-Fraction(1,2))%2),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1076,6 +1088,9 @@ class U3(Gate):  # See equation (5) of https://arxiv.org/pdf/1707.03429.pdf
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return U3(self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=self.rho),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1100,6 +1115,9 @@ class CU3(Gate):
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return CU3(self.control, self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=(self.rho+self.phi)/2),
                 ZPhase(self.target, phase=(self.rho-self.phi)/2),
@@ -1128,6 +1146,9 @@ class CU(Gate):
         self.gamma = gamma
         self.phases = [theta, phi, rho, gamma]
 
+    def to_adjoint(self):
+        return CU(self.control, self.target, -self.theta, -self.rho, -self.phi, -self.gamma)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=self.gamma)] + \
                CU3(self.control,self.target,self.theta,self.phi,self.rho).to_basic_gates()
-- 
2.43.0


From 1737f9c417720bd9de952934b8e21178773c50d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 037/173] fix: repositioning RZZ and FSim gates moves all their
 qubits

---
 pyzx/circuit/gates.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index ddce601..0496d94 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -821,6 +821,9 @@ class RZZ(ParityPhase):
         self.targets = (control, target)
         self.phase = phase
 
+    def reposition(self, mask, bit_mask = None):
+        return RZZ(mask[self.control], mask[self.target], self.phase)
+
 
 class FSim(Gate):
     name = 'FSim'
@@ -846,11 +849,6 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
-    def reposition(self, mask, bit_mask = None):
-        g = self.copy()
-        g.targets = [mask[t] for t in g.targets]
-        return g
-
     def to_basic_gates(self):
         # TODO
         #cnots = [CNOT(self.targets[i],self.targets[i+1]) for i in range(len(self.targets)-1)]
-- 
2.43.0


From 02bb34474ff155f505a2219100f21fb01caad8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 038/173] fix: equality of gates compares all their parameters

---
 pyzx/circuit/gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 0496d94..174bc8b 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","adjoint"]:
+        for a in ["target","control","phase","adjoint","theta","phi","rho","gamma","label"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
@@ -1208,7 +1208,7 @@ class Measurement(Gate):
         if not isinstance(other, Measurement): return False
         if self.target != other.target: return False
         if self.result_bit != other.result_bit: return False
-        return False
+        return True
 
     def reposition(self, mask, bit_mask = None):
         g = self.copy()
-- 
2.43.0


From 7e6ee465da8d60634ead61d6b56d16f496aaf779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 039/173] fix: the T-count of composite gates counts the T
 gates they expand to

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 174bc8b..ddfd985 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -209,7 +209,7 @@ class Gate(object):
         return g
 
     def tcount(self) -> int:
-        return 0
+        return sum(g.tcount() for g in self.to_basic_gates() if g is not self)
 
     def reposition(self: Tvar, mask: List[int], bit_mask: Optional[List[int]] = None) -> Tvar:
         g = self.copy()
-- 
2.43.0


From fbe36bb099dbf1a35633ed2e9d83084568e08856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 040/173] fix: a gate can be tensored with a circuit

---
 pyzx/circuit/gates.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index ddfd985..7fb64e7 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -193,9 +193,7 @@ class Gate(object):
         from . import Circuit
         c = Circuit(self._max_target()+1)
         c.add_gate(self)
-        c2 = Circuit(other._max_target()+1)
-        c2.add_gate(other)
-        return c@c2
+        return c@other
 
     def copy(self: Tvar) -> Tvar:
         return copy.copy(self)
-- 
2.43.0


From 3f408af77c37323d0c2f63fd9adcf65b56ff6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 041/173] fix: tensoring and splitting phases keep the bits of
 a circuit

---
 pyzx/circuit/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 1d349bf..687ec8d 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -185,7 +185,7 @@ class Circuit(object):
             other = c2
         if not isinstance(other,Circuit):
             raise Exception("Cannot tensor type", type(other), "to Circuit")
-        c = Circuit(self.qubits + other.qubits)
+        c = Circuit(self.qubits + other.qubits, bit_amount=self.bits + other.bits)
         c.gates = [g.copy() for g in self.gates]
         mask = [i+self.qubits for i in range(other.qubits)]
         bit_mask = [i+self.bits for i in range(other.bits)]
@@ -201,7 +201,7 @@ class Circuit(object):
         return c
 
     def split_phase_gates(self) -> 'Circuit':
-        c = Circuit(self.qubits, name=self.name)
+        c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
                 c.gates.extend(g.split_phases())
-- 
2.43.0


From 43f820779c17fa0c4f902002a3a6b41fe8fa3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 042/173] fix: adding a circuit to itself with a mask
 terminates

---
 pyzx/circuit/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 687ec8d..0cb68cf 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -172,9 +172,7 @@ class Circuit(object):
             raise TypeError("Mask size does not match qubits")
         if len(bit_mask) != circ.bits:
             raise TypeError("Bit mask size does not match bits")
-        for gate in circ.gates:
-            g = gate.reposition(mask, bit_mask)
-            self.add_gate(g)
+        self.gates.extend([g.reposition(mask, bit_mask) for g in circ.gates])
 
     def tensor(self, other: CircuitLike) -> 'Circuit':
         """Takes the tensor product of two Circuits. Places the second one below the first.
-- 
2.43.0


From e10cd20cb1d65b3d085aec9875123bfb4bb825fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 043/173] fix: depth of a circuit counts all types of gates,
 and is 0 without qubits

---
 pyzx/circuit/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 0cb68cf..b5d86a8 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -503,9 +503,13 @@ class Circuit(object):
     def depth(self) -> int:
         min_depth = [0] * self.qubits
         for g in self.gates:
-            if isinstance(g, (ZPhase, XPhase, HAD)):
+            if isinstance(g, (ZPhase, XPhase, YPhase, HAD, U2, U3, Measurement)):
                 min_depth[g.target] += 1
-            elif isinstance(g, (CZ, CNOT, SWAP)):
+            elif isinstance(g, ParityPhase):
+                gate_depth = max(min_depth[t] for t in g.targets) + 1
+                for t in g.targets:
+                    min_depth[t] = gate_depth
+            elif isinstance(g, (CZ, CNOT, SWAP, CY, CHAD, CSX, CRX, CRY, CRZ, RXX, CU3, CU, FSim)):
                 gate_depth = max(min_depth[g.target], min_depth[g.control]) + 1
                 min_depth[g.target] = gate_depth
                 min_depth[g.control] = gate_depth
@@ -514,7 +518,7 @@ class Circuit(object):
                 min_depth[g.target] = gate_depth
                 min_depth[g.ctrl1] = gate_depth
                 min_depth[g.ctrl2] = gate_depth
-        return max(min_depth)
+        return max(min_depth, default=0)
 
 
 def determine_file_type(circuitfile: str) -> str:
-- 
2.43.0


From c147b023bb2eb5a617586729dfbe9ff796153a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:16 +0000
Subject: [PATCH 044/173] fix: controlled rotations with an integer phase do
 not expand to float phases

---
 pyzx/circuit/gates.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 7fb64e7..158611c 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -658,9 +658,9 @@ class CRX(Gate):
     def to_basic_gates(self):
         return [ZPhase(self.target,Fraction(1,2)),
                 CNOT(self.control,self.target)] + \
-               U3(self.target,-self.phase/2,0,0).to_basic_gates() + \
+               U3(self.target,-self.phase*Fraction(1,2),0,0).to_basic_gates() + \
                [CNOT(self.control,self.target)] + \
-               U3(self.target,self.phase/2,Fraction(-1,2),0).to_basic_gates()
+               U3(self.target,self.phase*Fraction(1,2),Fraction(-1,2),0).to_basic_gates()
 
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
@@ -676,9 +676,9 @@ class CRY(Gate):
         self.phase = phase
 
     def to_basic_gates(self):
-        return YPhase(self.target,self.phase/2).to_basic_gates() + \
+        return YPhase(self.target,self.phase*Fraction(1,2)).to_basic_gates() + \
                [CNOT(self.control,self.target)] + \
-               YPhase(self.target,-self.phase/2).to_basic_gates() + \
+               YPhase(self.target,-self.phase*Fraction(1,2)).to_basic_gates() + \
                [CNOT(self.control,self.target)]
 
     def to_graph(self, g, q_mapper, c_mapper):
@@ -1115,12 +1115,12 @@ class CU3(Gate):
         return CU3(self.control, self.target, -self.theta, -self.rho, -self.phi)
 
     def to_basic_gates(self):
-        return [ZPhase(self.control,phase=(self.rho+self.phi)/2),
-                ZPhase(self.target, phase=(self.rho-self.phi)/2),
+        return [ZPhase(self.control,phase=(self.rho+self.phi)*Fraction(1,2)),
+                ZPhase(self.target, phase=(self.rho-self.phi)*Fraction(1,2)),
                 CNOT(self.control,self.target)] + \
-               U3(self.target,-self.theta/2,0,-(self.phi+self.rho)/2).to_basic_gates() + \
+               U3(self.target,-self.theta*Fraction(1,2),0,-(self.phi+self.rho)*Fraction(1,2)).to_basic_gates() + \
                [CNOT(self.control, self.target)] + \
-               U3(self.target,self.theta/2,self.phi,0).to_basic_gates()
+               U3(self.target,self.theta*Fraction(1,2),self.phi,0).to_basic_gates()
 
     def to_graph(self, g, q_mapper, c_mapper):
         for gate in self.to_basic_gates():
-- 
2.43.0


From 4b0ac290a0ffb8e48916bdbf1487cfe4029857fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 045/173] fix: CSWAP is not written as CCZ in the qc and
 Quipper formats

---
 pyzx/circuit/gates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 158611c..a6c18ea 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -997,6 +997,8 @@ class CCZ(Gate):
         q_mapper.set_next_row(self.ctrl2, r+1)
 
     def to_quipper(self):
+        if self.quipper_name == 'undefined':
+            return super().to_quipper()
         s = 'QGate["{}"]({!s})'.format(self.quipper_name,self.target)
         s += ' with controls=[+{!s},+{!s}]'.format(self.ctrl1,self.ctrl2)
         s += ' with nocontrol'
@@ -1032,6 +1034,8 @@ class Tofolli(CCZ):
 class CSWAP(CCZ):
     name = 'CSWAP'
     qasm_name = 'cswap'
+    qc_name = 'undefined'
+    quipper_name = 'undefined'
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, CSWAP): return False
-- 
2.43.0


From d3fae9fe8f4861502aca98f544b8241ea5a1307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 046/173] fix: SX gates are written correctly in the qc and
 Quipper formats

---
 pyzx/circuit/gates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index a6c18ea..4a68d41 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -258,7 +258,7 @@ class Gate(object):
 
     def to_qc(self) -> str:
         n = self.qc_name
-        if hasattr(self, "adjoint") and self.adjoint:
+        if n != 'undefined' and hasattr(self, "adjoint") and self.adjoint:
             n += "*"
         if n == 'undefined':
             if isinstance(self, (ZPhase, XPhase)):
@@ -449,6 +449,9 @@ class SX(XPhase):
         super().__init__(target, Fraction(1,2)*(-1 if adjoint else 1))
         self.adjoint = adjoint
 
+    def to_quipper(self):
+        return XPhase(self.target, self.phase).to_quipper()
+
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
-- 
2.43.0


From 15a21a092355ddd1f3816e75b029933f08c8bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 047/173] fix: Y rotations are written with their phase in the
 Quipper format, and Y, X and Y rotations are read

---
 pyzx/circuit/gates.py         | 5 +++++
 pyzx/circuit/quipperparser.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 4a68d41..93f656b 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -490,6 +490,11 @@ class YPhase(Gate):
     def __str__(self) -> str:
         return 'QRot["exp(-i%Y)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
 
+    def to_quipper(self):
+        if not self.print_phase:
+            return super().to_quipper()
+        return 'QRot["exp(-i%Y)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
+
     def to_basic_gates(self):
         return [ZPhase(self.target, Fraction(1,2)), XPhase(self.target, -self.phase), ZPhase(self.target, -Fraction(1,2))]
 
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 348e47c..eb26a97 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -54,6 +54,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 gtype = "ZPhase"
             elif gate[i+4:i+8] == '-i%X':
                 gtype = "XPhase"
+            elif gate[i+4:i+8] == '-i%Y':
+                gtype = "YPhase"
             else:
                 raise TypeError("Unsupported expression: " + gate) 
             val = gate[gate.find(',')+1: gate.find(']')]
@@ -79,6 +81,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         if len(l) == 1 or (len(l) == 2 and l[1].find("nocontrol") != -1):  # no controls
             if gname == "H": c.add_gate("HAD", t)
             elif gname == "not": c.add_gate("NOT", t)
+            elif gname == "X": c.add_gate("NOT", t)
+            elif gname == "Y": c.add_gate("Y", t)
             elif gname == "Z": c.add_gate("Z", t)
             elif gname == "S": c.add_gate("S", t, adjoint=adjoint)
             elif gname == "T": c.add_gate("T", t, adjoint=adjoint)
-- 
2.43.0


From c77bff4b2b7ddb5cc2874b1798809dec7b4eb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 048/173] fix: XCX is not written as a controlled X in the
 Quipper format, and a controlled X can be read

---
 pyzx/circuit/gates.py         | 2 +-
 pyzx/circuit/quipperparser.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 93f656b..0bb9d9b 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -627,7 +627,7 @@ class XCX(CZ):
     name = 'XCX'
     qasm_name = 'undefined'
     qc_name = 'undefined'
-    quipper_name = 'X'
+    quipper_name = 'undefined'
     def to_graph(self, g, q_mapper, _c_mapper):
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         t = self.graph_add_node(g, q_mapper, VertexType.X, self.target, r)
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index eb26a97..9796b6a 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -112,9 +112,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         elif ctrls.find('+')==-1:
             raise TypeError("Unsupported control: " + ctrls)
         ctrl = int(ctrls[1:])
-        if gname == "not": c.add_gate("CNOT", ctrl, t)
+        if gname in ("not", "X"): c.add_gate("CNOT", ctrl, t)
         elif gname == "Z": c.add_gate("CZ", ctrl, t)
-        elif gname == "X": c.add_gate("CX", ctrl, t)
         else:
             raise TypeError("Unsupported controlled gate: " + gname)
     return c
-- 
2.43.0


From 5ce0f90608d3a54df166b1429dd0cefe0066dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 049/173] fix: Y gates in the qc format can be read

---
 pyzx/circuit/qcparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/qcparser.py b/pyzx/circuit/qcparser.py
index adf82d3..66b34b7 100644
--- a/pyzx/circuit/qcparser.py
+++ b/pyzx/circuit/qcparser.py
@@ -50,6 +50,7 @@ def parse_qc(data: str) -> Circuit:
         if len(targets) == 1:
             t = targets[0]
             if gname in ('tof', 't1', 'not', 'x'): gates.append(NOT(t))
+            elif gname == 'y': gates.append(Y(t))
             elif gname == 'z': gates.append(Z(t))
             elif gname in ('s', 'p'): gates.append(S(t))
             elif gname in ('s*', 'p*'): gates.append(S(t,adjoint=True))
-- 
2.43.0


From d2bd473a50307fbcf943aedd64080d947690f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 050/173] fix: parity phases on a single qubit can be written
 in the circuit formats

---
 pyzx/circuit/gates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 0bb9d9b..db22ede 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -224,7 +224,7 @@ class Gate(object):
         n = self.quipper_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if any(b is self for b in bg):
                 raise TypeError("Gate {} doesn't have a Quipper description".format(str(self)))
             return "\n".join(g.to_quipper() for g in bg)
         s = 'QGate["{}"]{}({!s})'.format(n,
@@ -239,7 +239,7 @@ class Gate(object):
         n = self.qasm_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if any(b is self for b in bg):
                 raise TypeError("Gate {} doesn't have a QASM description".format(str(self)))
             return "\n".join(g.to_qasm() for g in bg)
         if hasattr(self, "adjoint") and self.adjoint:
@@ -267,7 +267,7 @@ class Gate(object):
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             else:
                 bg = self.to_basic_gates()
-                if len(bg) == 1:
+                if any(b is self for b in bg):
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             return "\n".join(g.to_qc() for g in bg)
         args = []
-- 
2.43.0


From beffa6e705a9604b992b6278692e5bf811cf9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 051/173] fix: emoji of S and T gates are different

---
 pyzx/circuit/gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index db22ede..b5eb3ee 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -322,7 +322,7 @@ class ZPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Zp4:'
+        if phase == Fraction(1,2): s = ':Zp2:'
         elif phase == Fraction(1,4): s = ':Zp4:'
         elif phase == Fraction(1,1): s = ':Zp:'
         elif phase == Fraction(3,4): s = ':Z3p4:'
@@ -402,7 +402,7 @@ class XPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Xp4:'
+        if phase == Fraction(1,2): s = ':Xp2:'
         elif phase == Fraction(1,4): s = ':Xp4:'
         elif phase == Fraction(1,1): s = ':Xp:'
         elif phase == Fraction(3,4): s = ':X3p4:'
-- 
2.43.0


From 21d3687c84da3b4e8bbc7903f07635ea1b15fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 052/173] fix: QASM files that include a library are not
 detected as qc files

---
 pyzx/circuit/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index b5d86a8..54201b1 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -540,10 +540,10 @@ def determine_file_type(circuitfile: str) -> str:
         f.close()
         if data.startswith('Inputs:'):
             return "quipper"
-        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
-            return "qc"
         if data.find('QASM') != -1:
             return "qasm"
+        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
+            return "qc"
 
         raise TypeError("Couldn't determine circuit format.")
 
-- 
2.43.0


From ef367bb80122a7ca01269e828313a38a2638b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 053/173] fix: the Quipper format of circuits without qubits
 can be read

---
 pyzx/circuit/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 54201b1..8b257e7 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -383,10 +383,11 @@ class Circuit(object):
 
     def to_quipper(self) -> str:
         """Produces a Quipper ASCII description of the circuit."""
-        s = "Inputs: " + ", ".join("{!s}:Qbit".format(i) for i in range(self.qubits)) + "\n"
+        wires = ", ".join("{!s}:Qbit".format(i) for i in range(self.qubits)) or "none"
+        s = "Inputs: " + wires + "\n"
         for g in self.gates:
             s += g.to_quipper() + "\n"
-        s += "Outputs: " + ", ".join("{!s}:Qbit".format(i) for i in range(self.qubits))
+        s += "Outputs: " + wires
         return s
 
     def to_qasm(self, version: int = 2) -> str:
-- 
2.43.0


From 124ed9747eec71be451ff277dd4d49f4ca51f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 054/173] fix: unknown gates in the qsim format are not dropped
 silently

---
 pyzx/circuit/qsimparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index e614fd0..ac8d381 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -54,6 +54,8 @@ def parse_qsim(data: str) -> Circuit:
             theta = float(gdesc[4]) / math.pi
             phi = float(gdesc[5]) / math.pi
             gates.append(FSim(q, q1, Fraction(theta), Fraction(phi)))
+        else:
+            raise TypeError("Unknown gate: " + l)
 
     c = Circuit(qcount)
     c.gates = gates
-- 
2.43.0


From 44837bd7b2723358b74e3606a891d233071a1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 055/173] fix: hz_1_2 in the qsim format is the square root of
 (X+Y)/sqrt(2)

---
 pyzx/circuit/qsimparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index ac8d381..3d5cca0 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -40,9 +40,9 @@ def parse_qsim(data: str) -> Circuit:
             phase = float(gdesc[3]) / math.pi
             gates.append(ZPhase(target = q, phase = Fraction(phase)))
         elif gdesc[1] == 'hz_1_2':
-            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
-            gates.append(XPhase(target = q, phase = Fraction(1,2)))
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
+            gates.append(XPhase(target = q, phase = Fraction(1,2)))
+            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
         elif gdesc[1] == 'x_1_2':
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
         elif gdesc[1] == 'y_1_2':
-- 
2.43.0


From 93011ef90cfb5554b9085b735fcb5e56637485d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 056/173] fix: phases in the Quipper and qsim formats that are
 fractions of pi are read exactly

---
 pyzx/circuit/qsimparser.py    | 4 ++--
 pyzx/circuit/quipperparser.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index 3d5cca0..b4b3abe 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -38,7 +38,7 @@ def parse_qsim(data: str) -> Circuit:
         q = int(gdesc[2])
         if gdesc[1] == 'rz':
             phase = float(gdesc[3]) / math.pi
-            gates.append(ZPhase(target = q, phase = Fraction(phase)))
+            gates.append(ZPhase(target = q, phase = Fraction(phase).limit_denominator(100000000)))
         elif gdesc[1] == 'hz_1_2':
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
@@ -53,7 +53,7 @@ def parse_qsim(data: str) -> Circuit:
             q1 = int(gdesc[3])
             theta = float(gdesc[4]) / math.pi
             phi = float(gdesc[5]) / math.pi
-            gates.append(FSim(q, q1, Fraction(theta), Fraction(phi)))
+            gates.append(FSim(q, q1, Fraction(theta).limit_denominator(100000000), Fraction(phi).limit_denominator(100000000)))
         else:
             raise TypeError("Unknown gate: " + l)
 
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 9796b6a..2345bf4 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -63,7 +63,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 f = float(val)
             except ValueError:
                 raise TypeError("Unsupported expression: " + gate)
-            phase = Fraction(f/math.pi)
+            phase = Fraction(f/math.pi).limit_denominator(100000000)
             target = gate[gate.rfind('(')+1:gate.rfind(')')]
             try: 
                 t = int(target)
-- 
2.43.0


From ee7951806f2e0fe95896567a409e55487d1192d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 057/173] fix: names that end in 'gate' are not read as gate
 declarations in QASM

---
 pyzx/circuit/qasmparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index a92341e..58f049e 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -67,8 +67,9 @@ class QASMParser(object):
         data = "\n".join(r)
         # Strip the custom command definitions from the normal commands
         while True:
-            i = data.find("gate ")
-            if i == -1: break
+            match = re.search(r"\bgate\s", data)
+            if not match: break
+            i = match.start()
             j = data.find("}", i)
             self.parse_custom_gate(data[i:j+1])
             data = data[:i] + data[j+1:]
-- 
2.43.0


From d47582d6a4a027f5ccbd32793c22e074c3c0fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 058/173] fix: statements on the line of the include statement
 are not dropped from QASM programs

---
 pyzx/circuit/qasmparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 58f049e..4aa5ca5 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -60,7 +60,7 @@ class QASMParser(object):
 
         if self.qasm_version == 2 and r[0].startswith('include "qelib1.inc";') or \
                 self.qasm_version == 3 and r[0].startswith('include "stdgates.inc";'):
-            r.pop(0)
+            r[0] = r[0][r[0].find(";")+1:]
         elif strict:
             raise TypeError("File is not importing standard library")
 
-- 
2.43.0


From d0f3bceb7259b19c7d40c3dea79e043c1cb7ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 059/173] fix: the version of a QASM program does not affect
 the programs parsed after it

---
 pyzx/circuit/qasmparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 4aa5ca5..3c2c939 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -37,6 +37,7 @@ class QASMParser(object):
         self.circuit: Optional[Circuit] = None
 
     def parse(self, s: str, strict:bool=True) -> Circuit:
+        self.qasm_version = settings.default_qasm_version
         self.gates = []
         self.custom_gates = {}
         self.registers = {}
-- 
2.43.0


From 8ed7b513cdea600099f7317cbff497a8f8002c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 060/173] fix: whitespace in QASM statements can be tabs and
 newlines

---
 pyzx/circuit/qasmparser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 3c2c939..d8245ea 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -95,8 +95,8 @@ class QASMParser(object):
                                 " not supported: {}".format(data))
             spec = spec[:i] + spec[j+1:]
         spec = spec.strip()
-        if " " in spec:
-            name, args = spec.split(" ",1)
+        if len(spec.split(None,1)) == 2:
+            name, args = spec.split(None,1)
             name = name.strip()
             args = args.strip()
         else:
@@ -126,7 +126,7 @@ class QASMParser(object):
             c = re.sub(r"^qubit\[(\d+)] (\w+)$", r"qreg \2[\1]", c)
             c = re.sub(r"^(\w+)\[(\d+)] = measure (\w+)\[(\d+)]$", r"measure \3[\4] -> \1[\2]", c)
         right_bracket = c.find(")")
-        name, rest = c.split(" ", 1) if right_bracket == -1\
+        name, rest = c.split(None, 1) if right_bracket == -1\
             else [c[:right_bracket+1], c[right_bracket+1:]]
         args = [s.strip() for s in rest.split(",") if s.strip()]
         left_bracket = name.find('(')
@@ -136,7 +136,7 @@ class QASMParser(object):
                 raise TypeError(f"Mismatched bracket: {name}.")
             vals = name[left_bracket+1:right_bracket].split(',')
             phases = [self.parse_phase_arg(val) for val in vals]
-            name = name[:left_bracket]
+            name = name[:left_bracket].strip()
         return name, phases, args
 
     def parse_command(self, c: str, registers: Dict[str,Tuple[int,int]]) -> List[Gate]:
-- 
2.43.0


From 1f7b57751c5742d2606e6c42bcdbfcbcb4ccf632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 061/173] fix: QASM statements with invalid or too many qubits
 are rejected

---
 pyzx/circuit/qasmparser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index d8245ea..381ad83 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -24,6 +24,12 @@ from . import Circuit
 from .gates import Gate, qasm_gate_table
 from ..utils import settings
 
+# Amount of qubits of the gates that act on more than one qubit
+qasm_arities: Dict[str, int] = {
+    'cx': 2, 'CX': 2, 'cy': 2, 'cz': 2, 'ch': 2, 'csx': 2, 'swap': 2, 'crx': 2, 'cry': 2, 'crz': 2,
+    'cp': 2, 'cphase': 2, 'cu1': 2, 'rxx': 2, 'rzz': 2, 'cu3': 2, 'cu': 2, 'ccx': 3, 'ccz': 3, 'cswap': 3,
+}
+
 
 class QASMParser(object):
     """Class for parsing QASM source files into circuit descriptions."""
@@ -147,6 +153,7 @@ class QASMParser(object):
             raise TypeError("Unsupported operation {}".format(c))
         if name == "qreg":
             regname, sizep = args[0].split("[",1)
+            if regname in registers: raise TypeError("Register {} already declared".format(regname))
             size = int(sizep[:-1])
             registers[regname] = (self.qubit_count, size)
             self.qubit_count += size
@@ -159,6 +166,7 @@ class QASMParser(object):
                 regname, valp = a.split("[",1)
                 val = int(valp[:-1])
                 if regname not in registers: raise TypeError("Invalid register {}".format(regname))
+                if not 0 <= val < registers[regname][1]: raise TypeError("Invalid index {}".format(a))
                 qubit_values.append([registers[regname][0]+val])
             else:
                 if is_range:
@@ -175,13 +183,17 @@ class QASMParser(object):
                     qubit_values[i] = [qubit_values[i][0]]*dim
         for j in range(dim):
             argset = [q[j] for q in qubit_values]
+            if len(set(argset)) != len(argset): raise TypeError("Duplicate arguments in {}".format(c))
             if name in self.custom_gates:
                 circ = self.custom_gates[name]
-                if len(argset) != circ.qubits:
+                if len(argset) != circ.qubits or len(phases) != 0:
                     raise TypeError("Argument amount does not match gate spec: {}".format(c))
                 for g in circ.gates:
                     gates.append(g.reposition(argset))
-            elif name in ('x', 'y', 'z', 's', 't', 'h', 'sx'):
+                continue
+            if name in qasm_gate_table and len(argset) != qasm_arities.get(name, 1):
+                raise TypeError("Argument amount does not match gate: {}".format(c))
+            if name in ('x', 'y', 'z', 's', 't', 'h', 'sx'):
                 if len(phases) != 0: raise TypeError("Invalid specification {}".format(c))
                 g = qasm_gate_table[name](argset[0])  # type: ignore # mypy can't handle Gate subclasses with different number of parameters
                 gates.append(g)
-- 
2.43.0


From cdb231b945a6f6ec8a781a60ab7adde031bb5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 062/173] fix: angle expressions in QASM are evaluated
 correctly or rejected

---
 pyzx/circuit/qasmparser.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index 381ad83..eb7cefc 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -239,24 +239,20 @@ class QASMParser(object):
         try:
             phase = float(val)/math.pi
         except ValueError:
-            if val.find('pi') == -1: raise TypeError("Invalid specification {}".format(val))
-            try:
-                val = val.replace('pi', '')
-                val = val.replace('*','')
-                if val.find('/') != -1:
-                    n, d = val.split('/',1)
-                    n = n.strip()
-                    if not n: n = 1
-                    elif n == '-': n = -1
-                    else: n = int(n)
-                    d = int(d.strip())
-                    phase = Fraction(n,d)
-                else:
-                    val = val.strip()
-                    if not val: phase = 1
-                    elif val == '-': phase = -1
-                    else: phase = float(val)
-            except: raise TypeError("Invalid specification {}".format(val))
+            # A product and quotient of numbers and a single factor of pi
+            number = r"(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)"
+            match = re.fullmatch(r"\s*([-+]?)\s*((?:{0}\s*)?pi|{0})((?:\s*[*/]\s*[-+]?(?:pi|{0}))*)\s*".format(number), val)
+            if not match: raise TypeError("Invalid specification {}".format(val))
+            factors = re.findall(r"([*/]?)\s*([-+]?)\s*(pi|{})".format(number), match[2] + match[3])
+            if [f[0] == '/' for f in factors if f[2] == 'pi'] != [False]:
+                raise TypeError("Invalid specification {}".format(val))
+            phase = Fraction(-1 if match[1] == '-' else 1)
+            for op, sign, factor in factors:
+                if factor == 'pi': value = Fraction(1)
+                else: value = Fraction(factor)
+                if sign == '-': value = -value
+                if op == '/' and not value: raise TypeError("Invalid specification {}".format(val))
+                phase = phase / value if op == '/' else phase * value
         phase = Fraction(phase).limit_denominator(100000000)
         return phase
 
-- 
2.43.0


From b544b20d90c760a344c6cea217122d2ffd0e8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 063/173] fix: CNOTs of matrices with fewer than two rows can
 be synthesised

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 994bfea..340dc3f 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -350,12 +350,12 @@ class Mat2(object):
             cn = CNOTMaker()
             blocksize = 5
             if use_log_blocksize:
-                blocksize = int(math.log2(self.rows()))
+                blocksize = max(1, int(math.log2(max(1, self.rows()))))
             self.copy().gauss(full_reduce=True,x=cn, blocksize=blocksize)
         else:
             best = 1000000
             best_cn = None
-            for size in range(1,self.rows()):
+            for size in range(1,max(2,self.rows())):
                 cn = CNOTMaker()
                 assert cn is not None
                 self.copy().gauss(full_reduce=True,x=cn, blocksize=size)
-- 
2.43.0


From 44b74a9b19bcd94442a908583c3e915ee14cf98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 064/173] fix: Mat2.gauss does not accumulate the pivots of all
 earlier calls

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 340dc3f..19cc4e2 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -143,7 +143,7 @@ class Mat2(object):
         """Permute the columns of the matrix according to the permutation p."""
         self.data = [[self.data[i][j] for j in p] for i in range(self.rows())]
     
-    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:List[int]=[]) -> int:
+    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:Optional[List[int]]=None) -> int:
         """Compute the echelon form. Returns the number of non-zero rows in the result, i.e.
         the rank of the matrix.
 
@@ -173,7 +173,7 @@ class Mat2(object):
 
         rows = self.rows()
         cols = self.cols()
-        #pivot_cols = []
+        if pivot_cols is None: pivot_cols = []
         pivot_row = 0
         for sec in range(math.ceil(cols / blocksize)):
             i0 = sec * blocksize
-- 
2.43.0


From e0c0c661d72b7abf1c9eda669f36822a08e6e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 065/173] fix: look-ahead extraction of a diagram that only
 consists of wires

---
 pyzx/extract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/extract.py b/pyzx/extract.py
index c1de2ec..5e77240 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -29,7 +29,7 @@ from .circuit.gates import Gate, ParityPhase, CNOT, HAD, ZPhase, XPhase, CZ, XCX
 
 from .graph.base import BaseGraph, VT, ET
 
-from typing import List, Optional, Tuple, Dict, Set, Union, Iterator
+from typing import List, Optional, Tuple, Dict, Set, Union, Iterator, cast
 
 
 def bi_adj(g: BaseGraph[VT,ET], vs:List[VT], ws:List[VT]) -> Mat2:
@@ -1355,6 +1355,9 @@ def lookahead_extract_base(
     roots: List[Optional[LookaheadNode]] =\
         [LookaheadNode(g, Circuit(len(inputs)), frontier, qubit_map, gadgets, optimize_for_depth, hard_limit)]
 
+    if not frontier:  # The graph only consists of wires, so there is nothing to expand
+        best_c, best_d = cast(LookaheadNode, roots[0]).get_finished(best_c, best_d, up_to_perm)
+
     while len(roots) > 0:
         rp = RootPicker(nodes_kept)
         for i in range(len(roots)):
-- 
2.43.0


From 9287a2ccf70f3086bf7b0999de46a215de8d09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 066/173] fix: clone keeps discards, vertex data and settings,
 and does not share edges or data

---
 pyzx/graph/graph_s.py    |  5 ++++-
 pyzx/graph/multigraph.py | 12 ++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 902479c..4331cb2 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -56,7 +56,8 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy._grounds = self._grounds.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
@@ -65,6 +66,8 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy.phase_master = self.phase_master
         cpy.phase_mult = self.phase_mult.copy()
         cpy.max_phase_index = self.max_phase_index
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         return cpy
 
     def vindex(self): return self._vindex
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e4323cc..a288958 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -84,7 +84,12 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
     def clone(self) -> 'Multigraph':
         cpy = Multigraph()
         for v, d in self.graph.items():
-            cpy.graph[v] = d.copy()
+            cpy.graph[v] = dict()
+        for v, d in self.graph.items():
+            for w, e in d.items():
+                if w not in cpy.graph[v]:
+                    cpy.graph[v][w] = cpy.graph[w][v] = Edge(e.s, e.h, e.w_io)
+        cpy._auto_simplify = self._auto_simplify
         cpy._vindex = self._vindex
         cpy.nedges = self.nedges
         cpy.ty = self.ty.copy()
@@ -93,7 +98,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy._grounds = self._grounds.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
@@ -102,6 +108,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy.phase_master = self.phase_master
         cpy.phase_mult = self.phase_mult.copy()
         cpy.max_phase_index = self.max_phase_index
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         return cpy
 
     def set_auto_simplify(self, s: bool):
-- 
2.43.0


From 65ee32c5cbc11ae8f22a550a1b8035666b539504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 067/173] fix: vertical connections of two X-spiders are read
 back as an XCX gate

---
 pyzx/circuit/graphparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index 1ccea9e..d49349d 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -77,7 +77,7 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                     if g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                         raise TypeError("Invalid vertical connection between vertices of the same type")
                     if t == VertexType.Z: c.add_gate("CZ", q2, q)
-                    else: c.add_gate("CX", q2, q)
+                    else: c.add_gate("XCX", q2, q)
                 else:
                     if g.edge_type(g.edge(v,n)) != EdgeType.SIMPLE:
                         raise TypeError("Invalid vertical connection between vertices of different type")
-- 
2.43.0


From b673c82234d9d18cf7fa66ee23ac6a9bff74225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 068/173] fix: isolated X-spiders can be converted to a tensor

---
 pyzx/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 1e931fc..75b40b7 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -60,8 +60,7 @@ def Z_to_tensor(arity: int, phase: float) -> np.ndarray:
 def X_to_tensor(arity: int, phase: float) -> np.ndarray:
     m = np.ones(2**arity, dtype = complex)
     if arity == 0:
-        m[()] = 1 + np.exp(1j*phase)
-        return m
+        return np.array(1 + np.exp(1j*phase))
     for i in range(2**arity):
         if bin(i).count("1")%2 == 0:
             m[i] += np.exp(1j*phase)
-- 
2.43.0


From 4f3468d37fab0d5d713d54e9ad46fb3db506022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 069/173] fix: to_tensor handles inputs that are drawn to the
 right of their neighbour, and wires between inputs

---
 pyzx/tensor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 75b40b7..5012e56 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -102,11 +102,13 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     Beware that quantum circuits take exponential memory to represent."""
     if g.is_hybrid():
         raise ValueError("Hybrid graphs are not supported.")
-    rows = g.rows()
+    rows = dict(g.rows())
     phases = g.phases()
     types = g.types()
     depth = g.depth()
     verts_row: Dict[FloatInt, List['VT']] = {}
+    first_row = min(rows.values(), default=0) - 1
+    for v in g.inputs(): rows[v] = first_row # The inputs are treated first, wherever they are drawn
     for v in g.vertices():
         r = rows[v]
         if r in verts_row: verts_row[r].append(v)
@@ -134,7 +136,11 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
             d = len(neigh)
             if v in inputs:
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
-                continue # inputs already taken care of
+                for n in neigh: # inputs are already taken care of, except for wires between two inputs
+                    if n in inputs and n < v:
+                        wire = had if g.edge_type(g.edge(v,n)) == EdgeType.HADAMARD else id2
+                        tensor = np.tensordot(tensor,wire,axes=(pop_and_shift([n,v],indices),[0,1]))
+                continue
             if v in outputs:
                 if d != 1: raise ValueError("Weird output")
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for output:",v, types[v])
-- 
2.43.0


From 581c854c7cc5d6a9b54782403664c291a8669fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 070/173] fix: compare_tensors does not depend on the size of
 the scalar, and tensors of different shape are not equal

---
 pyzx/tensor.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 5012e56..39fbed9 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -225,16 +225,14 @@ def compare_tensors(t1: TensorConvertible,t2: TensorConvertible, preserve_scalar
         t1 = t1.to_tensor(preserve_scalar)
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar)
-    if np.allclose(t1,t2): return True
-    if preserve_scalar: return False # We do not check for equality up to scalar
-    epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return False
-            break
-    else:
-        raise ValueError("Tensor is too close to zero")
-    return np.allclose(t1/a,t2/t2.flat[i])
+    if t1.shape != t2.shape: return False
+    m1, m2 = np.abs(t1).max(), np.abs(t2).max()
+    if preserve_scalar: # We do not check for equality up to scalar
+        return np.allclose(t1,t2,atol=10**-8*max(m1,m2))
+    if m1 == 0 or m2 == 0: return bool(m1 == m2)
+    i = np.argmax(np.abs(t1)) # We compare to the largest entry, so that the size of the scalar does not matter
+    if abs(t2.flat[i]) < 10**-8*m2: return False
+    return np.allclose(t1/t1.flat[i],t2/t2.flat[i])
 
 def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> complex:
     """Returns the complex number ``z`` such that ``t1 = z*t2``.
-- 
2.43.0


From ade5a6136c19aa5019f17295ef9647b304d569f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 071/173] fix: find_scalar_correction does not depend on the
 size of the scalar

---
 pyzx/tensor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 39fbed9..f1fb8d6 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -248,13 +248,9 @@ def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> compl
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar=True)
 
-    epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return 0
-            return a/t2.flat[i]
-
-    return 0
+    i = np.argmax(np.abs(t1))
+    if t2.flat[i] == 0: return 0
+    return t1.flat[i]/t2.flat[i]
 
 
 def compose_tensors(t1: np.ndarray, t2: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 29a6492c98db85942783c91fa282b299cecbf6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 072/173] fix: diagrams with different numbers of inputs and
 outputs are not unitary

---
 pyzx/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index f1fb8d6..85e8b8a 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -303,6 +303,7 @@ def adjoint(t: np.ndarray) -> np.ndarray:
 def is_unitary(g: 'BaseGraph') -> bool:
     """Returns whether the given ZX-graph is equal to a unitary (up to a number)."""
     from .generate import identity # Imported here to prevent circularity
+    if len(g.inputs()) != len(g.outputs()): return False
     adj = g.adjoint()
     adj.compose(g)
     return compare_tensors(adj.to_tensor(), identity(len(g.inputs()),2).to_tensor(), False)
-- 
2.43.0


From b5d2aa2d0069a062554505923f9fa6a4780a58c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 073/173] fix: a Hadamard is not an identity wire

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 6d2a398..fdfe004 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -537,6 +537,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         for i in range(len(inputs)):
             if not self.connected(inputs[i], outputs[i]): return False
+            if self.edge_type(self.edge(inputs[i], outputs[i])) != EdgeType.SIMPLE: return False
         return True
 
     def vindex(self) -> VT:
-- 
2.43.0


From 1a32dbd1b794d6a25931467281570b19539de08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 074/173] fix: GraphS.add_edges treats parallel edges like
 add_edge instead of overwriting them

---
 pyzx/graph/graph_s.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 4331cb2..c72dd58 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -117,11 +117,8 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         self._phase[v] = 0
 
     def add_edges(self, edge_pairs, edgetype=EdgeType.SIMPLE):
-        for s,t in edge_pairs:
-            self.nedges += 1
-            self.graph[s][t] = edgetype
-            self.graph[t][s] = edgetype
-    
+        for ep in edge_pairs: self.add_edge(ep, edgetype)
+
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
         if not t in self.graph[s]:
-- 
2.43.0


From 822a2e8a5e78a43a6f838458cd3bda93c547d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 075/173] fix: GraphS.add_edge simplifies self-loops, which the
 other methods do not support

---
 pyzx/graph/graph_s.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index c72dd58..7e4d1da 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -121,7 +121,16 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
-        if not t in self.graph[s]:
+        if s == t:
+            if not vertex_is_zx_like(self.ty[s]):
+                raise ValueError(f'Attempted to add self-loop {edge_pair}, type: {self.ty[s]}')
+            if edgetype == EdgeType.HADAMARD: # the loop is a pi phase, and a regular loop is just a wire
+                if self.ty[s] == VertexType.Z_BOX:
+                    set_z_box_label(self, s, get_z_box_label(self, s) * -1)
+                else:
+                    self.add_to_phase(s, 1)
+                self.scalar.add_power(-1)
+        elif not t in self.graph[s]:
             self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
-- 
2.43.0


From 9727434e666a82e935745a5c712535984da98281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 076/173] fix: GraphS.edges(s,t) is empty when the vertices are
 not connected

---
 pyzx/graph/graph_s.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 7e4d1da..fa36616 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -228,6 +228,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def edges(self, s=None, t=None):
         if s is not None and t is not None:
+            if self.connected(s,t):
                 yield (s,t) if s < t else (t,s)
         elif s is not None:
             for t in self.graph[s]:
-- 
2.43.0


From 88836164a13f9569f88b145567a73fdd3c3b6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 077/173] fix: Multigraph.edges and edge_type handle edges that
 are not in the graph

---
 pyzx/graph/multigraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index a288958..fc6ce1a 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -284,7 +284,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                         for _ in range(e.s): yield (v0, v1, EdgeType.SIMPLE)
                         for _ in range(e.h): yield (v0, v1, EdgeType.HADAMARD)
                         for _ in range(e.w_io): yield (v0, v1, EdgeType.W_IO)
-        elif t != None:
+        elif t != None and self.connected(s, t):
             s, t = (s, t) if s < t else (t, s)
             e = self.graph[s][t]
             for _ in range(e.s): yield (s, t, EdgeType.SIMPLE)
@@ -343,9 +343,11 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
     def edge_type(self, e):
         if len(e) == 2:
             edges = list(self.edges(e[0],e[1]))
+            if not edges: return 0
             if len(edges) != 1:
                 raise ValueError('Cannot determine edge type')
             e = edges[0]
+        elif e not in self.edges(e[0],e[1]) and (e[1],e[0],e[2]) not in self.edges(e[0],e[1]): return 0
         return e[2]
 
     def set_edge_type(self, edge, t):
-- 
2.43.0


From b674181e4c5ddeea5e92d79f73f807e9aa370872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 078/173] fix: Multigraph.num_edges counts the edges that are
 left after simplification

---
 pyzx/graph/multigraph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index fc6ce1a..67d71f8 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -262,8 +262,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return len(self.graph)
 
     def num_edges(self):
-        return self.nedges
-        #return len(self.edge_set())
+        return sum(1 for _ in self.edges())
 
     def vertices(self):
         return self.graph.keys()
-- 
2.43.0


From 1a31625f2df6b4cb85aa4bd3a9a9b47e01ff8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 079/173] fix: a Multigraph is not changed by an edge that it
 refuses

---
 pyzx/graph/multigraph.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 67d71f8..d3f3023 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -36,15 +36,14 @@ class Edge:
         self.w_io = w_io
 
     def add(self, s: int=0, h: int=0, w_io: int=0):
-        self.s += s
-        self.h += h
-        self.w_io += w_io
-        if self.s < 0 or self.h < 0:
+        s, h, w_io = self.s + s, self.h + h, self.w_io + w_io
+        if s < 0 or h < 0:
             raise ValueError('Cannot have negative edges')
-        if self.w_io not in (0,1):
+        if w_io not in (0,1):
             raise ValueError('Invalid number of W-IO edges')
-        if self.w_io == 1 and self.s + self.h > 0:
+        if w_io == 1 and s + h > 0:
             raise ValueError('Cannot have W-IO edge and other edges')
+        self.s, self.h, self.w_io = s, h, w_io # Only change the edge when it stays valid
 
     def remove(self, s: int=0, h: int=0, w_io: int=0):
         self.add(s=-s, h=-h, w_io=-w_io)
-- 
2.43.0


From 3594839711499dfd66802bfb241cc32085cbf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 080/173] fix: architectures add every connection once

---
 pyzx/routing/architecture.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 28fbfce..11ad443 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -84,8 +84,8 @@ class Architecture():
             # build the architecture graph
             n = coupling_matrix.shape[0]
             self.graph.add_vertices(n)
-            edges = [(row, col) for row in range(n) for col in range(n) if
-                     coupling_matrix[row, col] == 1]
+            edges = [(row, col) for row in range(n) for col in range(row+1, n) if
+                     coupling_matrix[row, col] == 1 or coupling_matrix[col, row] == 1]
             self.graph.add_edges(edges)
         self.vertices = list(self.graph.vertices())
 
@@ -519,7 +519,8 @@ def create_circle_architecture(n_qubits, backend=None, **kwargs):
     graph = Graph(backend=backend)
     vertices = graph.add_vertices(n_qubits)
     edges = connect_vertices_in_line(vertices)
-    edges.append((vertices[-1], vertices[0]))
+    if n_qubits > 2: # otherwise the line is already closed
+        edges.append((vertices[-1], vertices[0]))
     graph.add_edges(edges)
     name = dynamic_size_architecture_name(CIRCLE, n_qubits)
     return Architecture(name=name, coupling_graph=graph, backend=backend, **kwargs)
-- 
2.43.0


From 787b23ce5619e545dd5dece7080379d8f669c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 081/173] fix: the adjoint of a diagram conjugates the labels
 of Z-boxes

---
 pyzx/graph/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index fdfe004..1ac78da 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -172,6 +172,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             vtab[v] = i
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
+            if adjoint and ty[v] == VertexType.Z_BOX:
+                set_z_box_label(g, i, get_z_box_label(self, v).conjugate())
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
-- 
2.43.0


From 1fada89814c5e2e4e851065e2d16a5fac425168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 082/173] fix: copying and composing diagrams keeps the types
 of their variables

---
 pyzx/graph/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 1ac78da..078d8a6 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -152,6 +152,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.track_phases = self.track_phases
         g.scalar = self.scalar.copy(conjugate=adjoint)
         g.merge_vdata = self.merge_vdata
+        g.variable_types = self.variable_types.copy()
         mult:int = 1
         if adjoint:
             mult = -1
@@ -288,6 +289,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 else EdgeType.SIMPLE))
 
         self.scalar.mult_with_scalar(other.scalar)
+        self.variable_types.update(other.variable_types)
         maxr = max((self.row(v) for v in self.vertices()
                     if self.type(v) != VertexType.BOUNDARY), default=0)
         minr = min((other.row(v) for v in other.vertices()
@@ -323,6 +325,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         Can also be called using the operator ``graph1 @ graph2``"""
         g = self.copy()
         g.scalar.mult_with_scalar(other.scalar)
+        g.variable_types.update(other.variable_types)
         ts = other.types()
         qs = other.qubits()
         height = max((self.qubits().values()), default=0) + 1
-- 
2.43.0


From 5ade07ede00e68461e2b2e5f953e09dae5967edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 083/173] fix: diagrams with wires between two outputs or two
 inputs can be composed

---
 pyzx/graph/base.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 078d8a6..537b52b 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -76,6 +76,18 @@ def upair(v1: VT, v2: VT) -> Tuple[VT, VT]:
     return (v1, v2) if v1 <= v2 else (v2, v1)
 
 
+
+def _split_wire(g, v, w):
+    """Inserts an identity spider into the wire between ``v`` and ``w``, and returns it."""
+    e = g.edge(v, w)
+    et = g.edge_type(e)
+    u = g.add_vertex(VertexType.Z, (g.qubit(v)+g.qubit(w))/2, (g.row(v)+g.row(w))/2)
+    g.remove_edge(e)
+    g.add_edge((v, u), EdgeType.SIMPLE)
+    g.add_edge((u, w), et)
+    return u
+
+
 class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
     """Base class for letting graph backends interact with PyZX.
     For a backend to work with PyZX, there should be a class that implements
@@ -284,6 +296,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 raise ValueError("Bad input vertex: " + str(i))
             no = next(iter(self.neighbors(o)))
             ni = next(iter(other.neighbors(i)))
+            # A wire between two outputs (or two inputs) gets a vertex that stays when these are removed
+            if no in outputs: no = _split_wire(self, o, no)
+            if ni in inputs: ni = _split_wire(other, i, ni)
             plugs.append((no, ni, EdgeType.HADAMARD
                 if self.edge_type(self.edge(no,o)) != other.edge_type(other.edge(i,ni))
                 else EdgeType.SIMPLE))
-- 
2.43.0


From d90fee8284c32fb8a563748fa723f3464b2a0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 084/173] fix: the tensor product keeps discards, copies the
 vertex data and handles vertices without a position

---
 pyzx/graph/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 537b52b..3ab97fb 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -342,15 +342,13 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.scalar.mult_with_scalar(other.scalar)
         g.variable_types.update(other.variable_types)
         ts = other.types()
-        qs = other.qubits()
         height = max((self.qubits().values()), default=0) + 1
-        rs = other.rows()
         phases = other.phases()
         vdata = other._vdata
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],g.is_ground(v))
-            if v in vdata: g._vdata[w] = vdata[v]
+            w = g.add_vertex(ts[v],other.qubit(v)+height,other.row(v),phases[v],other.is_ground(v))
+            if v in vdata: g._vdata[w] = vdata[v].copy()
             vertex_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-- 
2.43.0


From 0d87f0909cb4aa4c64683dd3a7c45210e64f6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 085/173] fix: merging and taking subgraphs keeps vertex data,
 and merging keeps the scalar and returns the new edges

---
 pyzx/graph/base.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 3ab97fb..1931f6f 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -392,21 +392,20 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         Returns (list-of-vertices, list-of-edges) corresponding to
         the id's of the vertices and edges of the other graph."""
         ty = other.types()
-        rs = other.rows()
-        qs = other.qubits()
         phase = other.phases()
         grounds = other.grounds()
+        self.scalar.mult_with_scalar(other.scalar)
 
         vert_map = dict()
         edges = []
-        for v in other.vertices():
-            w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+        for v in list(other.vertices()):
+            w = self.add_vertex(ty[v],other.qubit(v),other.row(v),phase[v],v in grounds)
+            for k in other.vdata_keys(v):
+                self.set_vdata(w, k, other.vdata(v, k))
             vert_map[v] = w
-        for e in other.edges():
+        for e in list(other.edges()):
             s,t = other.edge_st(e)
-            f = (vert_map[s],vert_map[t])
-            self.add_edge(f,other.edge_type(e))
-            edges.append(e)
+            edges.append(self.add_edge((vert_map[s],vert_map[t]),other.edge_type(e)))
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -418,8 +417,6 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             g.set_auto_simplify(self._auto_simplify) # type: ignore
             # mypy issue https://github.com/python/mypy/issues/16413
         ty = self.types()
-        rs = self.rows()
-        qs = self.qubits()
         phase = self.phases()
         grounds = self.grounds()
 
@@ -428,12 +425,13 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         vert_map = dict()
         for v in verts:
-            w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = g.add_vertex(ty[v],self.qubit(v),self.row(v),phase[v],v in grounds)
+            for k in self.vdata_keys(v):
+                g.set_vdata(w, k, self.vdata(v, k))
             vert_map[v] = w
         for e in edges:
             s,t = self.edge_st(e)
-            f = g.edge(vert_map[s],vert_map[t])
-            g.add_edge(f,self.edge_type(e))
+            g.add_edge((vert_map[s],vert_map[t]),self.edge_type(e))
 
         return g
 
-- 
2.43.0


From 3e82097af9c2fc3388d7a092e21989a880af7c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 086/173] fix: plugging fewer states or effects than there are
 wires keeps the remaining ones

---
 pyzx/graph/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 1931f6f..8d9f9f5 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -442,6 +442,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         kets. If '/' is specified this input is skipped."""
         inputs = self.inputs()
         if len(state) > len(inputs): raise TypeError("Too many input states specified")
+        for s in state:
+            if s not in '01+-/': raise TypeError("Unknown input state " + s)
         new_inputs = []
         for i,s in enumerate(state):
             v = inputs[i]
@@ -458,9 +460,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 self.set_type(v, VertexType.Z)
                 if s == '-':
                     self.set_phase(v, Fraction(1))
-            else:
-                raise TypeError("Unknown input state " + s)
-        self.set_inputs(tuple(new_inputs))
+        self.set_inputs(tuple(new_inputs) + tuple(inputs[len(state):]))
 
     def apply_effect(self, effect: str) -> None:
         """Inserts an effect into the outputs of the graph. ``effect`` should be
@@ -469,6 +469,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         kets. If '/' is specified this output is skipped."""
         outputs = self.outputs()
         if len(effect) > len(outputs): raise TypeError("Too many output effects specified")
+        for s in effect:
+            if s not in '01+-/': raise TypeError("Unknown output effect " + s)
         new_outputs = []
         for i,s in enumerate(effect):
             v = outputs[i]
@@ -485,9 +487,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 self.set_type(v, VertexType.Z)
                 if s == '-':
                     self.set_phase(v, Fraction(1))
-            else:
-                raise TypeError("Unknown output effect " + s)
-        self.set_outputs(tuple(new_outputs))
+        self.set_outputs(tuple(new_outputs) + tuple(outputs[len(effect):]))
 
     def to_tensor(self, preserve_scalar:bool=True) -> np.ndarray:
         """Returns a representation of the graph as a tensor using :func:`~pyzx.tensor.tensorfy`"""
-- 
2.43.0


From bd2671a8bec93eae2ab8cc891584c48c8b903e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 087/173] fix: normalize does not reorder the outputs of a
 diagram without inputs

---
 pyzx/graph/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 8d9f9f5..470c6ea 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -607,7 +607,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
     def normalize(self) -> None:
         """Puts every node connecting to an input/output at the correct qubit index and row."""
-        if self.num_inputs() == 0:
+        if self.num_inputs() == 0 and self.num_outputs() == 0:
             self.auto_detect_io()
         max_r = self.depth() - 1
         if max_r <= 2:
-- 
2.43.0


From 6ffd08870cdc3cf9650b91a33f30fc4fc2cc87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 088/173] fix: normalize does not move outputs that are
 connected to another output

---
 pyzx/graph/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 470c6ea..0c913cb 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -637,7 +637,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             self.set_row(o,max_r+1)
             self.set_qubit(o,q)
             n = list(self.neighbors(o))[0]
-            if n not in claimed:
+            if n not in claimed and self.type(n) != VertexType.BOUNDARY:
                 self.set_row(n,max_r)
                 self.set_qubit(n, q)
             else:
-- 
2.43.0


From 0d17cfeab01e5ca00d626f3774a9f055f6c55dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 089/173] fix: the zero scalar can be converted to a complex
 number

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7d9e2a9..6dfb63a 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -110,7 +110,7 @@ class Scalar(object):
         return self.copy(conjugate=True)
 
     def to_number(self) -> complex:
-        if self.is_zero: return 0
+        if self.is_zero: return 0j
         val = cexp(self.phase)
         for node in self.phasenodes: # Node should be a Fraction
             val *= 1+cexp(node)
-- 
2.43.0


From a1c3683588e0547bbcb77011bd70253574f9fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 090/173] fix: the scalar of a pair of spiders with opposite
 phases is right for all phases

---
 pyzx/graph/scalar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 6dfb63a..7970760 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -237,6 +237,7 @@ class Scalar(object):
         # These if statements look quite arbitrary, but they are just calculations of the scalar
         # of a pair of connected single wire spiders of opposite colors.
         # We make special cases for Clifford phases and pi/4 phases.
+        p1, p2 = p1 % 2, p2 % 2
         if p2 in (0,1):
             p1,p2 = p2, p1
         if p1 == 0:
@@ -265,7 +266,7 @@ class Scalar(object):
                     self.add_phase(Fraction(1))
                 return
             self.add_power(1)
-            self.add_float(math.cos(p1))
+            self.add_float(math.cos(math.pi*p1))
             return
         # Generic case
         self.add_power(-1)
-- 
2.43.0


From 5c428297a53651879497f4c225e861a6eb929097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 091/173] fix: solitary spiders with phase -pi or 3pi make the
 scalar zero

---
 pyzx/graph/scalar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7970760..3c72be9 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -213,6 +213,7 @@ class Scalar(object):
     def add_node(self, node: FractionLike) -> None:
         """A solitary spider with a phase ``node`` is converted into the
         scalar 1+e^(i*pi*node)."""
+        node = node % 2
         if node == 0:
             self.power2 += 2
         else:
-- 
2.43.0


From f7105e75174ba79dbe6c454c8a3e6230c34ae39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 092/173] fix: scalars with complex factors, and unknown
 scalars, are saved correctly

---
 pyzx/graph/scalar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 3c72be9..46637ac 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -180,20 +180,23 @@ class Scalar(object):
 
     def to_json(self) -> str:
         d = {"power2": self.power2, "phase": str(self.phase)}
-        if abs(self.floatfactor - 1) > 0.00001:
-            d["floatfactor"] =  self.floatfactor
+        if self.floatfactor != 1:
+            f = complex(self.floatfactor)
+            d["floatfactor"] = f.real if f.imag == 0 else str(f)
         if self.phasenodes:
             d["phasenodes"] = [str(p) for p in self.phasenodes]
         if self.is_zero:
             d["is_zero"] = self.is_zero
         if self.is_unknown:
-            d["is_unknown"] = self.is_unknown,
+            d["is_unknown"] = self.is_unknown
         return json.dumps(d)
 
     @classmethod
     def from_json(cls, s: str) -> 'Scalar':
         d = json.loads(s)
         d["phase"] = Fraction(d["phase"])
+        if "floatfactor" in d:
+            d["floatfactor"] = complex(d["floatfactor"])
         if "phasenodes" in d:
             d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
         scalar = Scalar()
-- 
2.43.0


From 4dc065d44b2b93298ece41b00025a9fec4d1fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 093/173] fix: to_latex and to_unicode describe the full scalar

---
 pyzx/graph/scalar.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 46637ac..1c67e0f 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -122,8 +122,12 @@ class Scalar(object):
         if self.is_zero: return "0"
         elif self.is_unknown: return "Unknown"
         f = self.floatfactor
+        symbolic_nodes = ""
         for node in self.phasenodes:
-            f *= 1+cexp(node)
+            if isinstance(node, Poly):
+                symbolic_nodes += fr"(1+\exp(i~({str(node)})\pi))"
+            else:
+                f *= 1+cexp(node)
         if self.phase == 1:
             f *= -1
 
@@ -131,7 +135,7 @@ class Scalar(object):
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
         elif abs(f-1) > 0.0001: #f \neq 1
-            s += str(self.floatfactor)
+            s += str(f)
         if self.power2 != 0:
             s += r"\sqrt{{2}}^{{{:d}}}".format(self.power2)
         if self.phase not in (0,1):
@@ -139,7 +143,7 @@ class Scalar(object):
                 s += fr"\exp(i~{str(self.phase)})".format(str(self.phase))
             else:
                 s += r"\exp(i~\frac{{{:d}\pi}}{{{:d}}})".format(self.phase.numerator,self.phase.denominator)
-        s += "$"
+        s += symbolic_nodes + "$"
         if s == "$$": return ""
         return s
 
@@ -158,12 +162,11 @@ class Scalar(object):
             f *= -1
             phase -= 1
 
-        if abs(f+1) > 0.001 and abs(f-1) > 0.001:
-            return str(f)
-
         s = ""
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
+        elif abs(f-1) > 0.001: #f \neq 1
+            s += str(f)
         if self.power2 != 0:
             s += r"√2"
             if self.power2 < 0:
-- 
2.43.0


From ffabd83f14f88d32e414d9143c043ca596091955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 094/173] fix: scalars with symbolic phases can be printed

---
 pyzx/graph/scalar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 1c67e0f..8467957 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -66,7 +66,9 @@ class Scalar(object):
     def __str__(self) -> str:
         if self.is_unknown:
             return "UNKNOWN"
-        s = "{0.real:.2f}{0.imag:+.2f}i = ".format(self.to_number())
+        s = ""
+        if self.is_zero or not any(isinstance(p, Poly) for p in [self.phase] + self.phasenodes):
+            s = "{0.real:.2f}{0.imag:+.2f}i = ".format(self.to_number())
         if self.floatfactor != 1.0:
             s += "{0.real:.2f}{0.imag:+.2f}i".format(self.floatfactor)
         if self.phase:
-- 
2.43.0


From e8f154ecbc2dbb2809e959aa12ef8d936f1de28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 095/173] fix: products of equal Boolean variables are reduced,
 and variables with power zero disappear

---
 pyzx/symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index c52b4c3..8406055 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -114,9 +114,9 @@ class Term:
             if v not in vs: vs[v] = c
             else: vs[v] += c
             # TODO deal with fractional / symbolic powers
-            if v.is_bool and c > 1:
+            if v.is_bool and vs[v] > 1:
                 vs[v] = 1
-        return Term([(v, c) for v, c in vs.items()])
+        return Term([(v, c) for v, c in vs.items() if c != 0])
 
     def __hash__(self) -> int:
         return hash(tuple(sorted(self.vars)))
-- 
2.43.0


From 4c3cdad7caf5d110b1ba402d0f30b9240428e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 096/173] fix: expressions are compared by their contents, and
 equal expressions have equal hashes

---
 pyzx/symbolic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 8406055..8ba02c6 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -119,10 +119,11 @@ class Term:
         return Term([(v, c) for v, c in vs.items() if c != 0])
 
     def __hash__(self) -> int:
-        return hash(tuple(sorted(self.vars)))
+        return hash(frozenset(self.vars))
 
     def __eq__(self, other: object) -> bool:
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, Term): return False
+        return dict(self.vars) == dict(other.vars)
 
     def __lt__(self, other: 'Term') -> bool:
         if len(self.vars) != len(other.vars):
@@ -247,7 +248,7 @@ class Poly:
         return ' + '.join(ts)
 
     def __eq__(self, other: object) -> bool:
-        if isinstance(other, (int, float, Fraction)):
+        if isinstance(other, (int, float, complex, Fraction)):
             if other == 0:
                 other = Poly([])
             else:
@@ -276,7 +277,9 @@ class Poly:
         return not self < other
 
     def __hash__(self) -> int:
-        return hash(tuple(sorted(self.terms)))
+        if not self.terms: return hash(0)
+        if len(self.terms) == 1 and not self.terms[0][1].vars: return hash(self.terms[0][0]) # equal to this number
+        return hash(frozenset(self.terms))
 
     @property
     def degree(self) -> int:
-- 
2.43.0


From 3db04db4975b9e65c944a91dff0073df5045db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 097/173] fix: substituting fractions in an expression is exact

---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 8ba02c6..7ea0165 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -137,7 +137,7 @@ class Term:
         """Substitute variables in the term with the given values. Returns a tuple
         of the coefficient and the new term.
         """
-        coeff: Union[float, complex, 'Fraction'] = 1.
+        coeff: Union[float, complex, 'Fraction'] = 1
         new_vars = []
         for v, c in self.vars:
             if v in var_map:
-- 
2.43.0


From f818191f3a8ace89b22aeaf152bcf324cfff10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 098/173] fix: dividing an expression by a number terminates
 and is exact, and negative powers are not zero

---
 pyzx/symbolic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 7ea0165..fbabb73 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -203,8 +203,10 @@ class Poly:
     __rmul__ = __mul__
 
     def __truediv__(self, other: Union['Poly', Fraction, int, float, complex]) -> 'Poly':
+        if isinstance(other, Poly) and len(other.terms) == 1 and not other.terms[0][1].vars:
+            other = other.terms[0][0]
         if isinstance(other, (int, float, complex, Fraction)):
-            other = Poly([(other, Term([]))])
+            return self * (Fraction(1, other) if isinstance(other, (int, Fraction)) else 1 / other)
         if len(other.terms) == 0:
             raise ZeroDivisionError("division by zero")
         quotient = Poly([])
@@ -220,7 +222,11 @@ class Poly:
 
     def __pow__(self, other: int) -> 'Poly':
         if other < 0:
-            return Poly([(1, Term([]))]) / (self ** (-other))
+            if len(self.terms) != 1 or any(v.is_bool for v, _ in self.terms[0][1].vars):
+                raise ValueError("Only products of continuous variables have negative powers")
+            coeff, term = self.terms[0]
+            inverse = Fraction(1, coeff) if isinstance(coeff, (int, Fraction)) else 1 / coeff
+            return Poly([(inverse, Term([(v, -c) for v, c in term.vars]))]) ** (-other)
         if other == 0:
             return Poly([(1, Term([]))])
         if other == 1:
-- 
2.43.0


From 987ef1ec1bbe56e109c4b3e04850ca71db02168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 099/173] fix: Clifford tests, T-counts and phase teleportation
 work with symbolic phases

---
 pyzx/circuit/__init__.py |  4 ++--
 pyzx/circuit/gates.py    | 10 +++++-----
 pyzx/rules.py            | 11 +++++------
 pyzx/simplify.py         | 12 ++++++------
 pyzx/utils.py            |  5 +++++
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 8b257e7..e753e71 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -24,7 +24,7 @@ from .gates import (Gate, gate_types, NOT, Y, Z, HAD, XPhase, YPhase, ZPhase, U2
                     Measurement)
 
 from ..graph.base import BaseGraph
-from ..utils import EdgeType
+from ..utils import EdgeType, phase_is_non_clifford
 
 CircuitLike = Union['Circuit', Gate]
 
@@ -462,7 +462,7 @@ class Circuit(object):
             total += 1
             tcount += g.tcount()
             if isinstance(g, (ZPhase, XPhase)):
-                if g.phase.denominator <= 2: clifford += 1
+                if not phase_is_non_clifford(g.phase): clifford += 1
             elif isinstance(g, HAD):
                 hadamard += 1
                 clifford += 1
diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index b5eb3ee..b27fa93 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -24,7 +24,7 @@ import math
 from fractions import Fraction
 from typing import Dict, List, Optional, Type, ClassVar, TypeVar, Generic, KeysView
 
-from ..utils import EdgeType, VertexType, FractionLike
+from ..utils import EdgeType, VertexType, FractionLike, phase_is_non_clifford
 from ..graph.base import BaseGraph, VT, ET
 
 # We need this type variable so that the subclasses of Gate return the correct type for functions like copy()
@@ -333,7 +333,7 @@ class ZPhase(Gate):
         strings[self.target].append(s)
 
     def tcount(self):
-        return 1 if self.phase.denominator > 2 else 0
+        return 1 if phase_is_non_clifford(self.phase) else 0
 
     def split_phases(self) -> List['ZPhase']:
         if not self.phase: return []
@@ -418,7 +418,7 @@ class XPhase(Gate):
         return 'QRot["exp(-i%X)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
 
     def tcount(self):
-        return 1 if self.phase.denominator > 2 else 0
+        return 1 if phase_is_non_clifford(self.phase) else 0
 
     def split_phases(self) -> List[Gate]:
         if not self.phase: return []
@@ -503,7 +503,7 @@ class YPhase(Gate):
             gate.to_graph(g, q_mapper, c_mapper)
 
     def tcount(self):
-        return 1 if self.phase.denominator > 2 else 0
+        return 1 if phase_is_non_clifford(self.phase) else 0
 
 class Y(YPhase):
     name = 'Y'
@@ -815,7 +815,7 @@ class ParityPhase(Gate):
             gate.to_graph(g, q_mapper, c_mapper)
 
     def tcount(self):
-        return 1 if self.phase.denominator > 2 else 0
+        return 1 if phase_is_non_clifford(self.phase) else 0
 
 
 class RZZ(ParityPhase):
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 710d7ab..0425b3e 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -55,7 +55,7 @@ import itertools
 
 import numpy as np
 
-from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_z_like
+from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_z_like, phase_is_non_clifford
 from .graph.base import BaseGraph, VT, ET
 from .symbolic import Poly
 
@@ -579,7 +579,7 @@ def match_pivot_boundary(
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-            if phases[n] and hasattr(phases[n], 'denominator') and phases[n].denominator == 2:
+            if phases[n] and not isinstance(phases[n], Poly) and getattr(phases[n], 'denominator', 1) == 2:
                 w = n
                 bound = boundaries[0]
             if not w:
@@ -842,8 +842,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     outputs = g.outputs()
     # First we find all the phase-gadgets, and the list of vertices they act on
     for v in candidates:
-        non_clifford = phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2
-        if isinstance(phases[v], Poly): non_clifford = True
+        non_clifford = isinstance(phases[v], Poly) or (phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2)
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
@@ -909,7 +908,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     # First we find all the non-Clifford vertices and their list of neighbors
     while len(candidates) > 0:
         v = candidates.pop()
-        if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
+        if not phase_is_non_clifford(phases[v]): continue # Skip Clifford vertices
         neigh = set(g.neighbors(v))
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
@@ -926,7 +925,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
+            if not phase_is_non_clifford(phases[w]) or w in taken: continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index d8aaf7a..176d270 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -30,7 +30,7 @@ __all__ = ['bialg_simp','spider_simp', 'id_simp', 'phase_free_simp', 'pivot_simp
 from optparse import Option
 from typing import List, Callable, Optional, Union, Generic, Tuple, Dict, Iterator, cast
 
-from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
+from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex, phase_is_non_clifford
 from .rules import *
 from .graph.base import BaseGraph, VT, ET
 from .circuit import Circuit
@@ -237,21 +237,21 @@ class Simplifier(Generic[VT, ET]):
         p2 = self.mastergraph.phase(v2)
         m1 = self.simplifygraph.phase_mult[i1]
         m2 = self.simplifygraph.phase_mult[i2]
-        if (p2 == 0 or p2.denominator <= 2): # Deleted vertex contains Clifford phase
+        if not phase_is_non_clifford(p2): # Deleted vertex contains Clifford phase
             if v2 in self.phantom_phases:
                 v3,i3 = self.phantom_phases[v2]
                 m2 = cast(Literal[1, -1], m2*self.simplifygraph.phase_mult[i3])
                 v2,i2 = v3,i3
                 p2 = self.mastergraph.phase(v2)
             else: return
-        if (p1 == 0 or p1.denominator <= 2): # Need to save non-Clifford location
+        if not phase_is_non_clifford(p1): # Need to save non-Clifford location
             self.simplifygraph.phase_mult[i1] = 1
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
                 self.mastergraph.phase_index[v3] = i1
                 del self.mastergraph.phase_index[v1]
                 p1 = self.mastergraph.phase(v3)
-                if (p1+p2).denominator <= 2:
+                if not phase_is_non_clifford(p1+p2):
                     del self.phantom_phases[v1]
                 v1,i1 = v3,i3
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
@@ -259,7 +259,7 @@ class Simplifier(Generic[VT, ET]):
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-        if p1.denominator <= 2 or p2.denominator <= 2: raise Exception("Clifford phases here??")
+        if not phase_is_non_clifford(p1) or not phase_is_non_clifford(p2): raise Exception("Clifford phases here??")
         # Both have non-Clifford phase
         if m1*m2 == 1: phase = (p1 + p2)%2
         else: phase = p1 - p2
@@ -310,7 +310,7 @@ def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
     count = 0
     phases = g.phases()
     for v in g.vertices():
-        if phases[v]!=0 and phases[v].denominator > 2:
+        if phase_is_non_clifford(phases[v]):
             count += 1
     return count
 
diff --git a/pyzx/utils.py b/pyzx/utils.py
index 6724137..c02d3d4 100644
--- a/pyzx/utils.py
+++ b/pyzx/utils.py
@@ -114,6 +114,11 @@ def phase_is_clifford(phase: FractionLike):
     else:
         return phase.is_clifford
 
+def phase_is_non_clifford(phase: FractionLike) -> bool:
+    """Whether the phase is not a multiple of pi/2. Symbolic phases are non-Clifford unless they always are such a multiple."""
+    if isinstance(phase, Poly): return not phase.is_clifford
+    return phase.denominator > 2
+
 def phase_is_pauli(phase: FractionLike):
     if isinstance(phase, (Fraction, int)):
         return phase in (0, 1)
-- 
2.43.0


From 2a4b2c9bb2bf238cf1aca79e9a6a016a9b35198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 100/173] fix: expressions are read back from their printed
 form

---
 pyzx/symbolic.py | 26 ++++++++++++++++++++++----
 pyzx/utils.py    |  6 +++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index fbabb73..84c3bb0 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -249,9 +249,11 @@ class Poly:
                 ts.append(f'{c}')
             elif c == 1:
                 ts.append(f'{t}')
+            elif str(t)[0] in 'eE': # Not the exponent of a number
+                ts.append(f'{c}*{t}')
             else:
                 ts.append(f'{c}{t}')
-        return ' + '.join(ts)
+        return ' + '.join(ts) if ts else '0'
 
     def __eq__(self, other: object) -> bool:
         if isinstance(other, (int, float, complex, Fraction)):
@@ -347,16 +349,23 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 
 
 poly_grammar = Lark("""
-    start      : "(" start ")" | term ("+" term)*
-    term       : (intf | frac)? factor ("*" factor)*
-    ?factor    : intf | frac | pi | pifrac | var
+    start      : "(" start ")" | _signed ("+" _signed | neg)*
+    _signed    : term | neg
+    neg        : "-" term
+    term       : (intf | frac | decimal)? factor ("*" factor)*
+    ?factor    : intf | frac | decimal | pi | pifrac | var | power
     var        : CNAME
+    power      : CNAME "^" SIGNED_INT
+    decimal    : DECIMAL
     intf       : INT
     pi         : "\\pi" | "pi"
     frac       : INT "/" INT
     pifrac     : [INT] pi "/" INT
 
+    DECIMAL    : /[0-9]+\\.[0-9]*(e[+-]?[0-9]+)?|[0-9]+e[+-][0-9][0-9]+/
+
     %import common.INT
+    %import common.SIGNED_INT
     %import common.CNAME
     %import common.WS
     %ignore WS
@@ -380,6 +389,15 @@ class PolyTransformer(Transformer):
         v = str(items[0])
         return self._new_var(v)
 
+    def neg(self, items: List[Poly]) -> Poly:
+        return -items[0]
+
+    def power(self, items: List[Any]) -> Poly:
+        return self._new_var(str(items[0])) ** int(items[1])
+
+    def decimal(self, items: List[Any]) -> Poly:
+        return new_const(float(items[0])) # type: ignore
+
     def pi(self, _: List[Any]) -> Poly:
         return new_const(1)
 
diff --git a/pyzx/utils.py b/pyzx/utils.py
index c02d3d4..57f1047 100644
--- a/pyzx/utils.py
+++ b/pyzx/utils.py
@@ -84,7 +84,7 @@ def toggle_edge(ty: EdgeType) -> EdgeType:
     return EdgeType.HADAMARD if ty == EdgeType.SIMPLE else EdgeType.SIMPLE
 
 def phase_to_s(a: FractionLike, t:VertexType=VertexType.Z) -> str:
-    if isinstance(a, Fraction) or isinstance(a, int):
+    if isinstance(a, Fraction) or isinstance(a, int) or (isinstance(a, Poly) and not a.terms):
         return phase_fraction_to_s(a, t)
     else: # a is a Poly
         return str(a)
@@ -92,9 +92,9 @@ def phase_to_s(a: FractionLike, t:VertexType=VertexType.Z) -> str:
 def phase_fraction_to_s(a: FractionLike, t:VertexType=VertexType.Z) -> str:
     if (a == 0 and t != VertexType.H_BOX): return ''
     if (a == 1 and t == VertexType.H_BOX): return ''
-    if isinstance(a, Poly):
+    if isinstance(a, Poly) and a != 0:
         return str(a)
-    a = Fraction(a)
+    a = Fraction(0) if isinstance(a, Poly) else Fraction(a)
 
     if a == 0: return '0'
     simstr = ''
-- 
2.43.0


From 27e68454b908877b064f81bfd9733873ee70f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 101/173] fix: the zero expression is false, like other zero
 phases

---
 pyzx/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 84c3bb0..bd50f81 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -289,6 +289,9 @@ class Poly:
         if len(self.terms) == 1 and not self.terms[0][1].vars: return hash(self.terms[0][0]) # equal to this number
         return hash(frozenset(self.terms))
 
+    def __bool__(self) -> bool:
+        return self != 0
+
     @property
     def degree(self) -> int:
         powers = [sum(c for _, c in t.vars) for coeff, t in self.terms if coeff != 0]
-- 
2.43.0


From 5fecf5db3d9cd29906d126f3e1b67eeedf587c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 102/173] fix: a symbolic phase that is a constant Clifford
 phase does not make a phase gadget

---
 pyzx/rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 0425b3e..9980f52 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -842,7 +842,8 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     outputs = g.outputs()
     # First we find all the phase-gadgets, and the list of vertices they act on
     for v in candidates:
-        non_clifford = isinstance(phases[v], Poly) or (phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2)
+        p = phases[v]
+        non_clifford = len(p.free_vars()) > 0 or not p.is_clifford if isinstance(p, Poly) else getattr(p, 'denominator', 1) > 2
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
-- 
2.43.0


From 59ad95e9333964b2050844de636c3d2650d89f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 103/173] fix: an expression does not have terms that are zero

---
 pyzx/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index bd50f81..ed9f24c 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -151,7 +151,7 @@ class Poly:
     terms: List[Tuple[Union[int, float, complex, Fraction], Term]]
 
     def __init__(self, terms: List[Tuple[Union[int, float, complex, Fraction], Term]]) -> None:
-        self.terms = terms
+        self.terms = [(c, t) for c, t in terms if c != 0]
 
     def freeze(self) -> None:
         for _, term in self.terms:
-- 
2.43.0


From d294821afb92122b97cbee44ed19fe608bc4c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 104/173] fix: scalars with symbolic phases can be read back
 from json

---
 pyzx/graph/jsonparser.py |  2 +-
 pyzx/graph/scalar.py     | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e2bb638..6da8eac 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -172,7 +172,7 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         edges[e] = amount
 
     if "scalar" in j:
-        g.scalar = Scalar.from_json(j["scalar"])
+        g.scalar = Scalar.from_json(j["scalar"], g.variable_types)
     g.add_edge_table(edges)
 
     return g
diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 8467957..6085b64 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -20,11 +20,11 @@ import math
 import cmath
 import copy
 from fractions import Fraction
-from typing import List
+from typing import Dict, List, Optional
 import json
 
 from ..utils import FloatInt, FractionLike
-from ..symbolic import Poly
+from ..symbolic import Poly, new_var, parse
 
 __all__ = ['Scalar']
 
@@ -197,13 +197,22 @@ class Scalar(object):
         return json.dumps(d)
 
     @classmethod
-    def from_json(cls, s: str) -> 'Scalar':
+    def from_json(cls, s: str, variable_types: Optional[Dict[str, bool]] = None) -> 'Scalar':
+        """Restores a scalar saved by :meth:`to_json`. Variables of symbolic phases have the
+        types given by ``variable_types``, and are added to it when they aren't in there."""
+        types: Dict[str, bool] = {} if variable_types is None else variable_types
+        def to_var(name: str) -> Poly:
+            types.setdefault(name, False)
+            return new_var(name, types)
+        def to_phase(p: str) -> FractionLike:
+            try: return Fraction(p)
+            except ValueError: return parse(p, to_var)
         d = json.loads(s)
-        d["phase"] = Fraction(d["phase"])
+        d["phase"] = to_phase(d["phase"])
         if "floatfactor" in d:
             d["floatfactor"] = complex(d["floatfactor"])
         if "phasenodes" in d:
-            d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+            d["phasenodes"] = [to_phase(p) for p in d["phasenodes"]]
         scalar = Scalar()
         scalar.__dict__.update(d)
         return scalar
-- 
2.43.0


From 2cd1a1f635f98c93a691daf217daa9a419a439d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 105/173] fix: vertices with equal names are not lost when a
 diagram is saved as json

---
 pyzx/graph/jsonparser.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 6da8eac..ccb1f5c 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -185,22 +185,22 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
     wire_vs: Dict[str, Dict[str, Any]] = {}
     edges: Dict[str, Dict[str, str]] = {}
     names: Dict[VT, str] = {}
-    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges())]
-    freenamesb = ["b"+str(i) for i in range(g.num_vertices())]
+    # Each vertex keeps its name, unless another vertex already has that name
+    taken: Dict[str, VT] = {}
+    for v in g.vertices():
+        name = g.vdata(v, 'name')
+        if name and isinstance(name, str) and name not in taken: taken[name] = v
+    freenamesv = [name for name in ("v"+str(i) for i in range(2*g.num_vertices()+g.num_edges())) if name not in taken]
+    freenamesb = [name for name in ("b"+str(i) for i in range(2*g.num_vertices())) if name not in taken]
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
         t = g.type(v)
         coord = [round(g.row(v),3),round(-g.qubit(v),3)]
         name = g.vdata(v, 'name')
-        if not name:
+        if not isinstance(name, str) or taken.get(name) != v:
             if t == VertexType.BOUNDARY: name = freenamesb.pop(0)
             else: name = freenamesv.pop(0)
-        else:
-            try:
-                freenamesb.remove(name) if t==VertexType.BOUNDARY else freenamesv.remove(name)
-            except:
-                pass
 
         names[v] = name
         if t == VertexType.BOUNDARY:
-- 
2.43.0


From 0d37d7f8e6fc75f0bdec73261c8f33c248a782b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 106/173] fix: the spiders added between Hadamard nodes get a
 free name

---
 pyzx/graph/jsonparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index ccb1f5c..c4d5e4b 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -144,7 +144,9 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         n1, n2 = edge['src'], edge['tgt']
         if n1 in hadamards and n2 in hadamards: #Both
             v = g.add_vertex(VertexType.Z)
-            name = "v"+str(len(names))
+            i = len(names)
+            while "v"+str(i) in names or "v"+str(i) in hadamards: i += 1
+            name = "v"+str(i)
             g.set_vdata(v, 'name',name)
             names[name] = v
             hadamards[n1].append(v)
-- 
2.43.0


From 4214c9b00362f9feaeac3be74dfbd996481c5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 107/173] fix: phases with large denominators, labels, data and
 names that look like complex numbers are saved as json and read back

---
 pyzx/graph/jsonparser.py | 32 ++++++++++++++++++--------------
 pyzx/utils.py            | 10 ++++++----
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index c4d5e4b..1003e33 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -70,6 +70,14 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         except Exception as e:
             raise ValueError(e)
 
+def string_to_label(label: Any, g: Union[BaseGraph,'GraphDiff']) -> Any:
+    """Reads the label of a Z-box, which is a number, or a string containing a phase or a complex number."""
+    if not isinstance(label, str): return label
+    try:
+        return complex(label)
+    except ValueError:
+        return string_to_phase(label, g)
+
 def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
     """Converts the json representation of a .qgraph Quantomatic graph into
     a pyzx graph."""
@@ -112,9 +120,8 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         for key, value in attr['annotation'].items():
             if key == 'coord':
                 continue
-            elif key == 'label':
-                if type(value) != complex:
-                    value = string_to_phase(value,g)
+            elif key == 'label' and g.type(v) == VertexType.Z_BOX:
+                value = string_to_label(value, g)
             g.set_vdata(v, key, value)
 
     inputs = {}
@@ -232,11 +239,13 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
             elif t==VertexType.Z_BOX:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
-                if type(zbox_label) == Fraction:
-                    zbox_label = phase_to_s(zbox_label)
+                if isinstance(zbox_label, (Fraction, Poly)):
+                    zbox_label = phase_to_s(zbox_label, exact=True)
+                elif isinstance(zbox_label, complex):
+                    zbox_label = str(zbox_label)
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
-            phase = phase_to_s(g.phase(v))
+            phase = phase_to_s(g.phase(v), exact=True)
             if phase: node_vs[name]["data"]["value"] = phase
             if g.is_ground(v):
                 node_vs[name]["data"]["ground"] = True
@@ -330,7 +339,7 @@ def to_graphml(g: BaseGraph[VT,ET]) -> str:
 class ComplexEncoder(json.JSONEncoder):
     def default(self, obj):
         if isinstance(obj, complex):
-            return str(obj)
+            return {"real": obj.real, "imag": obj.imag, "type": "complex"}
         return super().default(obj)
 
 class ComplexDecoder(json.JSONDecoder):
@@ -338,11 +347,6 @@ class ComplexDecoder(json.JSONDecoder):
         json.JSONDecoder.__init__(self, object_hook=self.object_hook, *args, **kwargs)
 
     def object_hook(self, dct):
-        for k, v in dct.items():
-            if isinstance(v, str):
-                try:
-                    dct[k] = complex(v)
-                except ValueError:
-                    pass
+        if dct.get("type") == "complex" and set(dct) == {"real", "imag", "type"}:
+            return complex(dct["real"], dct["imag"])
         return dct
-
diff --git a/pyzx/utils.py b/pyzx/utils.py
index 57f1047..2a2dd32 100644
--- a/pyzx/utils.py
+++ b/pyzx/utils.py
@@ -83,13 +83,15 @@ def toggle_edge(ty: EdgeType) -> EdgeType:
     """Swap the regular and Hadamard edge types."""
     return EdgeType.HADAMARD if ty == EdgeType.SIMPLE else EdgeType.SIMPLE
 
-def phase_to_s(a: FractionLike, t:VertexType=VertexType.Z) -> str:
+def phase_to_s(a: FractionLike, t:VertexType=VertexType.Z, exact:bool=False) -> str:
+    """Returns a readable form of the phase. Fractions with a large denominator are rounded,
+    and marked with a '~', unless ``exact`` is set."""
     if isinstance(a, Fraction) or isinstance(a, int) or (isinstance(a, Poly) and not a.terms):
-        return phase_fraction_to_s(a, t)
+        return phase_fraction_to_s(a, t, exact)
     else: # a is a Poly
         return str(a)
 
-def phase_fraction_to_s(a: FractionLike, t:VertexType=VertexType.Z) -> str:
+def phase_fraction_to_s(a: FractionLike, t:VertexType=VertexType.Z, exact:bool=False) -> str:
     if (a == 0 and t != VertexType.H_BOX): return ''
     if (a == 1 and t == VertexType.H_BOX): return ''
     if isinstance(a, Poly) and a != 0:
@@ -98,7 +100,7 @@ def phase_fraction_to_s(a: FractionLike, t:VertexType=VertexType.Z) -> str:
 
     if a == 0: return '0'
     simstr = ''
-    if a.denominator > 256:
+    if a.denominator > 256 and not exact:
         a = a.limit_denominator(256)
         simstr = '~'
 
-- 
2.43.0


From 7cace8419750f4d312932d8c10c1acac77dce558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 108/173] fix: multigraphs that are not simplified
 automatically keep their parallel edges when saved as json

---
 pyzx/graph/jsonparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 1003e33..8f534ae 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -21,6 +21,7 @@ from typing import List, Dict, Any, Optional, Callable, Union, TYPE_CHECKING
 
 from ..utils import FractionLike, EdgeType, VertexType, phase_to_s
 from .graph import Graph
+from .multigraph import Multigraph
 from .scalar import Scalar
 from .base import BaseGraph, VT, ET
 from ..simplify import id_simp
@@ -83,6 +84,8 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
     a pyzx graph."""
     j = json.loads(js, cls=ComplexDecoder)
     g = Graph(backend)
+    if isinstance(g, Multigraph):
+        g.set_auto_simplify(j.get('auto_simplify', True))
     g.variable_types = j.get('variable_types',{})
 
     names: Dict[str, Any] = {} # TODO: Any = VT
@@ -284,6 +287,8 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
         "undir_edges": edges,
         "variable_types": g.variable_types,
     }
+    if isinstance(g, Multigraph):
+        d["auto_simplify"] = g._auto_simplify
     if include_scalar:
         d["scalar"] = g.scalar.to_json()
 
-- 
2.43.0


From 25cad73a36f2848a38f3d8ac40de1df8679df964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 109/173] fix: variables whose name contains pi are read
 correctly

---
 pyzx/graph/jsonparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 8f534ae..cffe4d3 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -47,7 +47,7 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         return Fraction(0)
     try:
         s = string.lower().replace(' ', '')
-        s = re.sub(r'\\?(pi|\u03c0)', '', s)
+        s = re.sub(r'(?<![a-z_])\\?(pi|\u03c0)(?![a-z0-9_])', '', s)
         if s == '': return Fraction(1)
         if s == '-': return Fraction(-1)
         if '.' in s or 'e' in s:
-- 
2.43.0


From 2fdd924369666cb810e1105959bcb3663168ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 110/173] fix: Hadamard edges at a boundary are connected to
 their Hadamard node in tikz

---
 pyzx/tikz.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2372726..3ff8fae 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -113,6 +113,11 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 t = "        \\node [style={:s}] ({:d}) at ({:.2f}, {:.2f}) {{}};".format(settings.tikz_classes['H'],maxindex+1, x,y)
                 verts.append(t)
                 maxindex += 1
+                style = settings.tikz_classes['edge']
+                if style: s += "[style={:s}] ".format(style)
+                edges.append(s + "({:d}) to ({:d});".format(v+idoffset,maxindex))
+                edges.append(s + "({:d}) to ({:d});".format(maxindex,w+idoffset))
+                continue
         elif et == EdgeType.W_IO:
             style = settings.tikz_classes['W-io-edge']
             if style: s += "[style={:s}] ".format(style)
-- 
2.43.0


From 1d76090b02301cf7a2e4724a5b21b26af4df4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 111/173] fix: integer phases, and Z-boxes with label 0 or -1,
 are restored from tikz

---
 pyzx/tikz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 3ff8fae..b57909e 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -66,6 +66,7 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
             p = get_z_box_label(g,v)
         else:
             p = g.phase(v)
+            if isinstance(p, int): p = Fraction(p)
         if ty == VertexType.BOUNDARY:
             style = settings.tikz_classes['boundary']
         elif ty == VertexType.H_BOX:
@@ -84,7 +85,7 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 if ty==VertexType.Z: style = settings.tikz_classes['Z']
                 else: style = settings.tikz_classes['X']
         if ((ty == VertexType.H_BOX or ty == VertexType.Z_BOX) and p == 1) or\
-            (ty != VertexType.H_BOX and p == 0):
+            (ty != VertexType.H_BOX and ty != VertexType.Z_BOX and p == 0):
             phase = ""
         elif type(p) == Fraction:
             ns = '' if p.numerator == 1 else str(p.numerator)
@@ -294,8 +295,10 @@ def tikz_to_graph(
                     raise ValueError("Node definition %s has invalid phase label" % l)
             else:
                 label = label.replace(r'\pi','').strip()
-                if label == '' or label == '-' or label == '-1':
+                if label == '':
                     set_phase(v,1)
+                elif label == '-' or label == '-1':
+                    set_phase(v,-1)
                 elif label.find(r'\frac') != -1:
                     label = label.replace(r'\frac','').strip()
                     if label.find('}{') == -1:
-- 
2.43.0


From 7b293f7c76121e821311a56697d71a6541daa052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 112/173] fix: node numbers in sequences of tikz diagrams do
 not overlap

---
 pyzx/tikz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index b57909e..bb22830 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -143,7 +143,8 @@ def to_tikz_sequence(graphs:List[BaseGraph], draw_scalar:bool=False, maxwidth:Fl
     idoffset = 0
     total_verts, total_edges = [],[]
     for g in graphs:
-        max_index = max(g.vertices()) + 2*g.num_inputs() + 2
+        # Next to the vertices there are nodes for the scalar and for Hadamard edges
+        max_index = max(g.vertices(), default=0) + g.num_edges() + 2
         verts, edges = _to_tikz(g,draw_scalar,xoffset,yoffset,idoffset)
         total_verts.extend(verts)
         total_edges.extend(edges)
-- 
2.43.0


From a6a81d27c0046878f1c6bd1d521910a6acd2a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 113/173] fix: GraphDiff records the data of new vertices,
 handles removed data, and does not share data with the graphs

---
 pyzx/graph/diff.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 66f2e64..f29c288 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -70,8 +70,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_vertex_types[v] = g2.type(v)
 				if g1.phase(v) != g2.phase(v):
 					self.changed_phases[v] = g2.phase(v)
-				if g1._vdata.get(v, None) != g2._vdata.get(v, None):
-					self.changed_vdata[v] = g2._vdata.get(v, None)
+				if g1._vdata.get(v, {}) != g2._vdata.get(v, {}):
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata.get(v, {}))
 				pos1 = g1.qubit(v), g1.row(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				if pos1 != pos2:
@@ -81,6 +81,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_vertex_types[v] = g2.type(v)
 				if g2.phase(v) != 0:
 					self.changed_phases[v] = g2.phase(v)
+				if g2._vdata.get(v, {}):
+					self.changed_vdata[v] = copy.deepcopy(g2._vdata[v])
 				pos2 = g2.qubit(v), g2.row(v)
 				self.changed_pos[v] = pos2
 
@@ -106,7 +108,7 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.changed_phases:
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
-				g._vdata[v] = self.changed_vdata[v]
+				g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
 
@@ -124,7 +126,7 @@ class GraphDiff(Generic[VT, ET]):
 
 		for v in self.changed_vdata:
 			if v in self.new_verts: continue
-			g._vdata[v] = self.changed_vdata[v]
+			g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
-- 
2.43.0


From 61d202e59256adf23acb9935f4072994c1829744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 114/173] fix: applying a GraphDiff adds exactly the listed
 edges to a multigraph

---
 pyzx/graph/diff.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index f29c288..89fda46 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -22,6 +22,7 @@ from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
+from .multigraph import Multigraph
 from .jsonparser import ComplexDecoder, ComplexEncoder, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
@@ -87,12 +88,8 @@ class GraphDiff(Generic[VT, ET]):
 				self.changed_pos[v] = pos2
 
 		for e in new_edges:
-			if e in old_edges:
-				if g1.edge_type(e) != g2.edge_type(e):
-					self.changed_edge_types[e] = g2.edge_type(e)
-			else:
-				if g2.edge_type(e) != EdgeType.HADAMARD: # We take Hadamard edges to be the default
-					self.changed_edge_types[e] = g2.edge_type(e)
+			if e in old_edges and g1.edge_type(e) != g2.edge_type(e): # The types of new edges are in self.new_edges
+				self.changed_edge_types[e] = g2.edge_type(e)
 
 	def apply_diff(self,g: BaseGraph[VT,ET]) -> BaseGraph[VT,ET]:
 		g = copy.deepcopy(g)
@@ -109,9 +106,6 @@ class GraphDiff(Generic[VT, ET]):
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
 				g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
-		for st, ty in self.new_edges:
-			g.add_edge(st,ty)
-
 		for v in self.changed_pos:
 			if v in self.new_verts: continue
 			g.set_position(v,*self.changed_pos[v])
@@ -128,6 +122,13 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.new_verts: continue
 			g._vdata[v] = copy.deepcopy(self.changed_vdata[v])
 
+		# The diff lists the edges exactly as they should be, so parallel edges must not be simplified
+		auto_simplify = isinstance(g, Multigraph) and g._auto_simplify
+		if isinstance(g, Multigraph): g.set_auto_simplify(False)
+		for st, ty in self.new_edges:
+			g.add_edge(st,ty)
+		if isinstance(g, Multigraph): g.set_auto_simplify(auto_simplify)
+
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
 
-- 
2.43.0


From 664a745b87cec00d47db7c217017cddd83a82501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 115/173] fix: applying a GraphDiff keeps the types of the
 variables of the new phases

---
 pyzx/graph/diff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 89fda46..50c4d6f 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -93,6 +93,7 @@ class GraphDiff(Generic[VT, ET]):
 
 	def apply_diff(self,g: BaseGraph[VT,ET]) -> BaseGraph[VT,ET]:
 		g = copy.deepcopy(g)
+		g.variable_types.update(self.variable_types)
 		g.remove_edges(self.removed_edges)
 		g.remove_vertices(self.removed_verts)
 		for v in self.new_verts:
-- 
2.43.0


From 9ff4546ac436ed80917e7fd60a93e5716c03f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 116/173] fix: GraphDiff.from_json restores edges, types and
 variables, and phases exactly

---
 pyzx/graph/diff.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 50c4d6f..e2b4d5c 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -139,7 +139,7 @@ class GraphDiff(Generic[VT, ET]):
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
 			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
-		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
+		changed_phases_str = {k: phase_to_s(v, exact=True) for k, v in self.changed_phases.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
@@ -159,12 +159,13 @@ class GraphDiff(Generic[VT, ET]):
 		gd = GraphDiff(GraphS(),GraphS())
 		gd.removed_verts = d["removed_verts"]
 		gd.new_verts = d["new_verts"]
-		gd.removed_edges = list(map(tuple, d["removed_edges"])) # type: ignore
-		gd.new_edges = list(map(tuple, d["new_edges"])) # type: ignore
-		gd.changed_vertex_types = map_dict_keys(d["changed_vertex_types"], int)
-		gd.changed_edge_types = map_dict_keys(d["changed_edge_types"], lambda x: tuple(map(int, x.split(","))))
+		gd.variable_types = d["variable_types"]
+		gd.removed_edges = [(*e[:2], *map(EdgeType, e[2:])) for e in d["removed_edges"]] # type: ignore
+		gd.new_edges = [((s,t), EdgeType(ty)) for (s,t), ty in d["new_edges"]]
+		gd.changed_vertex_types = {int(k): VertexType(ty) for k, ty in d["changed_vertex_types"].items()}
+		gd.changed_edge_types = {tuple(map(int, k.split(","))): EdgeType(ty) for k, ty in d["changed_edge_types"].items()} # type: ignore
 		gd.changed_phases = {int(k): string_to_phase(v,gd) for k, v in d["changed_phases"].items()}
-		gd.changed_pos = map_dict_keys(d["changed_pos"], int)
+		gd.changed_pos = {int(k): tuple(pos) for k, pos in d["changed_pos"].items()} # type: ignore
 		gd.changed_vdata = map_dict_keys(d["changed_vdata"], int)
 		return gd
 
-- 
2.43.0


From ab048a51282c9475d0357dca51536f60cb85c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 117/173] fix: GraphDiff.to_json handles labels of Z-boxes that
 are fractions or symbolic

---
 pyzx/graph/diff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index e2b4d5c..34cf7c1 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -17,9 +17,11 @@
 import copy
 import json
 from collections import Counter
+from fractions import Fraction
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
+from ..symbolic import Poly
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
 from .multigraph import Multigraph
@@ -140,6 +142,9 @@ class GraphDiff(Generic[VT, ET]):
 		for key, value in self.changed_edge_types.items():
 			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
 		changed_phases_str = {k: phase_to_s(v, exact=True) for k, v in self.changed_phases.items()}
+		# Fractions and symbolic expressions (labels of Z-boxes) are stored as strings
+		changed_vdata = {v: {k: {"value": phase_to_s(x, exact=True), "type": "phase"} if isinstance(x, (Fraction, Poly)) else x
+			for k, x in data.items()} for v, data in self.changed_vdata.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
@@ -149,7 +154,7 @@ class GraphDiff(Generic[VT, ET]):
 			"changed_edge_types": changed_edge_types_str_dict,
 			"changed_phases": changed_phases_str,
 			"changed_pos": self.changed_pos,
-			"changed_vdata": self.changed_vdata,
+			"changed_vdata": changed_vdata,
 			"variable_types": self.variable_types
 		},  cls=ComplexEncoder)
 
@@ -166,7 +171,8 @@ class GraphDiff(Generic[VT, ET]):
 		gd.changed_edge_types = {tuple(map(int, k.split(","))): EdgeType(ty) for k, ty in d["changed_edge_types"].items()} # type: ignore
 		gd.changed_phases = {int(k): string_to_phase(v,gd) for k, v in d["changed_phases"].items()}
 		gd.changed_pos = {int(k): tuple(pos) for k, pos in d["changed_pos"].items()} # type: ignore
-		gd.changed_vdata = map_dict_keys(d["changed_vdata"], int)
+		gd.changed_vdata = {int(v): {k: string_to_phase(x["value"], gd) if isinstance(x, dict) and x.get("type") == "phase" and set(x) == {"value", "type"} else x
+			for k, x in data.items()} for v, data in d["changed_vdata"].items()}
 		return gd
 
 def map_dict_keys(d: Dict[str, Any], f: Callable[[str], Any]) -> Dict[Any, Any]:
-- 
2.43.0


From f061c657c5f3ae70e5c7ba880ccb1178db5bf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 118/173] fix: undo in the editor restores inputs, outputs,
 discards and labels of Z-boxes

---
 pyzx/editor.py           | 23 +++++++++++++++++++----
 pyzx/graph/jsonparser.py | 13 +++++++------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 2a7e21c..3cd53e2 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -25,10 +25,11 @@ from typing import Callable, Optional, List, Tuple, Set, Dict, Any, Union
 import pyperclip # type: ignore # Needed for clipboard actions
 
 from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
-from .utils import settings, get_mode, phase_to_s, FloatInt
+from .utils import settings, get_mode, phase_to_s, FloatInt, get_z_box_label, set_z_box_label
 from .drawing import matrix_to_latex
 from .graph import Scalar
 from .graph.graph import GraphS
+from .graph.jsonparser import string_to_phase, string_to_label, label_to_string
 from . import rules
 from . import tikz
 
@@ -144,8 +145,15 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 	links = [{'source': int(g.edge_s(e)),
 			  'target': int(g.edge_t(e)),
 			  't': g.edge_type(e) } for e in edges]
-	scalar = g.scalar.to_json()
-	return json.dumps({'nodes': nodes, 'links': links, 'scalar': scalar})
+	return json.dumps({'nodes': nodes, 'links': links, **hidden_to_json(g)})
+
+def hidden_to_json(g: GraphS) -> Dict[str,Any]:
+	"""The parts of the diagram that the editor does not show, which have to be restored when undoing."""
+	return {'scalar': g.scalar.to_json(),
+			'inputs': [int(v) for v in g.inputs()],
+			'outputs': [int(v) for v in g.outputs()],
+			'grounds': [int(v) for v in g.grounds()],
+			'labels': {int(v): label_to_string(get_z_box_label(g, v)) for v in g.vertices() if g.type(v) == VertexType.Z_BOX}}
 
 
 @widgets.register
@@ -398,6 +406,12 @@ class ZXEditorWidget(widgets.DOMWidget):
 			self.graph.remove_edges(marked)
 			if 'scalar' in js:
 				self.graph.scalar = Scalar.from_json(js['scalar'])
+			if 'inputs' in js: self.graph.set_inputs(tuple(js['inputs']))
+			if 'outputs' in js: self.graph.set_outputs(tuple(js['outputs']))
+			if 'grounds' in js:
+				for w in list(self.graph.vertices()): self.graph.set_ground(w, w in js['grounds'])
+			for name, label in js.get('labels', {}).items():
+				set_z_box_label(self.graph, int(name), string_to_label(label, self.graph))
 			self._update_matrix()
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
@@ -408,8 +422,9 @@ class ZXEditorWidget(widgets.DOMWidget):
 		self.msg.append("Handling graph change")
 		try:
 			js = json.loads(change['new'])
-			js['scalar'] = self.graph.scalar.to_json()
+			js = {'nodes': js['nodes'], 'links': js['links'], 'scalar': self.graph.scalar.to_json()}
 			self.graph_from_json(js)
+			js.update(hidden_to_json(self.graph))
 			self._undo_stack_add(self.last_operation, json.dumps(js))
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index cffe4d3..0cca5a1 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -79,6 +79,12 @@ def string_to_label(label: Any, g: Union[BaseGraph,'GraphDiff']) -> Any:
     except ValueError:
         return string_to_phase(label, g)
 
+def label_to_string(label: Any) -> Any:
+    """Writes the label of a Z-box such that :func:`string_to_label` can read it."""
+    if isinstance(label, (Fraction, Poly)): return phase_to_s(label, exact=True)
+    if isinstance(label, complex): return str(label)
+    return label
+
 def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
     """Converts the json representation of a .qgraph Quantomatic graph into
     a pyzx graph."""
@@ -241,12 +247,7 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
                 node_vs[name]["data"]["type"] = "W_output"
             elif t==VertexType.Z_BOX:
                 node_vs[name]["data"]["type"] = "Z_box"
-                zbox_label = g.vdata(v, 'label', 1)
-                if isinstance(zbox_label, (Fraction, Poly)):
-                    zbox_label = phase_to_s(zbox_label, exact=True)
-                elif isinstance(zbox_label, complex):
-                    zbox_label = str(zbox_label)
-                node_vs[name]["annotation"]["label"] = zbox_label
+                node_vs[name]["annotation"]["label"] = label_to_string(g.vdata(v, 'label', 1))
             else: raise Exception("Unkown vertex type "+ str(t))
             phase = phase_to_s(g.phase(v), exact=True)
             if phase: node_vs[name]["data"]["value"] = phase
-- 
2.43.0


From 6a58ea34d61966dde69c479a23415e99edbe8732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 119/173] fix: the editor keeps symbolic phases and phases with
 large denominators

---
 pyzx/editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 3cd53e2..ac255cb 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -140,7 +140,7 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 			  'x': (g.row(v) + 1) * scale,
 			  'y': (g.qubit(v) + 2) * scale,
 			  't': g.type(v),
-			  'phase': phase_to_s(g.phase(v),g.type(v)) }
+			  'phase': phase_to_s(g.phase(v),g.type(v),exact=True) }
 			 for v in verts]
 	links = [{'source': int(g.edge_s(e)),
 			  'target': int(g.edge_t(e)),
@@ -383,7 +383,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 				r = float(n["x"])/scale -1
 				q = float(n["y"])/scale -2
 				t = int(n["t"])
-				phase = s_to_phase(n["phase"], t) # type: ignore
+				phase = string_to_phase(n["phase"], self.graph) if n["phase"] else s_to_phase("", t) # type: ignore
 				if v not in marked:
 					self.graph.add_vertex_indexed(v)
 				else: 
-- 
2.43.0


From 28ca71b0e2d36fd2501362443b48d6c2250886c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:20 +0000
Subject: [PATCH 120/173] fix: spider fusion is not offered for a Z-box and a
 spider with a symbolic phase

---
 pyzx/rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 9980f52..7a5359a 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -183,6 +183,8 @@ def match_spider_parallel(
         v1t = types[v1]
         if (v0t == v1t and vertex_is_zx(v0t)) or \
             (vertex_is_z_like(v0t) and vertex_is_z_like(v1t)):
+            if v0t != v1t and isinstance(g.phase(v0 if v0t == VertexType.Z else v1), Poly):
+                continue # a spider with a symbolic phase can't be turned into a Z-box
             i += 1
             for v in g.neighbors(v0):
                 for c in g.incident_edges(v): candidates.discard(c)
-- 
2.43.0


From db24c9fbee937b2859720dda351ee8d21c69156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 121/173] fix: fuse refuses a Z-box and a spider with a
 symbolic phase

---
 pyzx/basicrules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index db33b49..cedfb13 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -48,6 +48,7 @@ __all__ = ['color_change_diagram',
 from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusion, z_to_z_box
+from .symbolic import Poly
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
                     set_z_box_label, vertex_is_w, vertex_is_z_like, vertex_is_zx, toggle_vertex, toggle_edge)
 
@@ -192,6 +193,8 @@ def check_fuse(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
              (vertex_is_z_like(g.type(v1)) and vertex_is_z_like(g.type(v2)))) and
             EdgeType.SIMPLE in [g.edge_type(edge) for edge in g.edges(v1,v2)]):
         return False
+    if any(isinstance(g.phase(v), Poly) and g.type(v) == VertexType.Z and g.type(w) == VertexType.Z_BOX for v, w in ((v1,v2),(v2,v1))):
+        return False # a spider with a symbolic phase can't be turned into a Z-box
     return True
 
 def fuse(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
-- 
2.43.0


From 89e0222fd33d12ba9e35bafeaf6a93a7563e68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 122/173] fix: tensorfy handles vertices without a position

---
 pyzx/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 85e8b8a..981589b 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -102,7 +102,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     Beware that quantum circuits take exponential memory to represent."""
     if g.is_hybrid():
         raise ValueError("Hybrid graphs are not supported.")
-    rows = dict(g.rows())
+    rows = {v: g.row(v) for v in g.vertices()} # Vertices may lack a position
     phases = g.phases()
     types = g.types()
     depth = g.depth()
-- 
2.43.0


From bcb295467d668d15cc10ce79f6f56fc25c2a3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 123/173] fix: tensorfy takes parallel edges and self-loops
 into account

---
 pyzx/tensor.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 981589b..acc5388 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -132,8 +132,14 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
 
     for i,r in enumerate(sorted(verts_row.keys())):
         for v in sorted(verts_row[r]):
-            neigh = list(g.neighbors(v))
-            d = len(neigh)
+            legs = [] # The other end and the type of every edge, so that parallel edges are counted as often as they occur
+            loops = [] # The types of the self-loops
+            for e in g.incident_edges(v):
+                s, u = g.edge_st(e)
+                if s == u: loops.append(g.edge_type(e))
+                else: legs.append((u if s == v else s, g.edge_type(e)))
+            neigh = [n for n, _ in legs]
+            d = len(legs)
             if v in inputs:
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for input:", v, types[v])
                 for n in neigh: # inputs are already taken care of, except for wires between two inputs
@@ -142,7 +148,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                         tensor = np.tensordot(tensor,wire,axes=(pop_and_shift([n,v],indices),[0,1]))
                 continue
             if v in outputs:
-                if d != 1: raise ValueError("Weird output")
+                if d != 1 or loops: raise ValueError("Weird output")
                 if types[v] != VertexType.BOUNDARY: raise ValueError("Wrong type for output:",v, types[v])
                 d += 1
                 t = id2
@@ -151,6 +157,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                 if isinstance(p, Poly):
                     raise ValueError(f"Can't convert diagram with parameters to tensor: {str(p)}")
                 phase = pi*p
+                d += 2*len(loops)
                 if types[v] == VertexType.Z:
                     t = Z_to_tensor(d,phase)
                 elif types[v] == VertexType.X:
@@ -166,11 +173,14 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     t = Z_box_to_tensor(d, label)
                 else:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
-            nn = list(filter(lambda n: rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
-            ety = {n:g.edge_type(g.edge(v,n)) for n in nn}
-            nn.sort(key=lambda n: ety[n])
-            for n in nn:
-                if ety[n] == EdgeType.HADAMARD:
+                for ety in loops:
+                    t = np.tensordot(t, had if ety == EdgeType.HADAMARD else id2, ([0,1],[0,1]))
+                    d -= 2
+            earlier = [(n,ety) for n,ety in legs if rows[n]<r or (rows[n]==r and n<v)] # TODO: allow ordering on vertex indices?
+            earlier.sort(key=lambda leg: leg[1])
+            nn = [n for n,_ in earlier]
+            for _,ety in earlier:
+                if ety == EdgeType.HADAMARD:
                     t = np.tensordot(t,had,(0,0)) # Hadamard edges are moved to the last index of t
             contr = pop_and_shift(nn,indices) #the last indices in contr correspond to hadamard contractions
             tensor = np.tensordot(tensor,t,axes=(contr,list(range(len(t.shape)-len(contr),len(t.shape)))))
-- 
2.43.0


From 5b990409b580b789d87932bd7c84219abc3909fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 124/173] fix: to_quimb_tensor handles all vertex types,
 isolated and unary spiders, parallel edges and zero scalars

---
 pyzx/quimb.py | 58 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 3ddc8a3..fa84f42 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -28,7 +28,8 @@ import importlib
 qu: Any = None
 qtn: Any = None
 
-from .utils import EdgeType, VertexType
+from .tensor import H_to_tensor, W_to_tensor
+from .utils import EdgeType, VertexType, get_z_box_label
 from .graph.base import BaseGraph
 from .simplify import to_gh
 from .symbolic import Poly
@@ -46,6 +47,8 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
         qu = importlib.import_module('quimb')
         qtn = importlib.import_module('quimb.tensor')
 
+    if g.is_hybrid():
+        raise NotImplementedError("Quimb does not support hybrid diagrams")
     # copying a graph guarantees consecutive indices, which are needed for the tensor net
     g = g.copy()
 
@@ -54,29 +57,48 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
     
     tensors = []
 
+    # The names of the indices. A Z-like vertex is one (hyper)index, the other vertices have an index for every end of an edge.
+    ends: Any = {v: [] for v in g.vertices()}
+    edges = []
+    for i, edge in enumerate(g.edges()):
+        inds = []
+        for j, v in enumerate(g.edge_st(edge)):
+            own_index = g.type(v) in (VertexType.Z, VertexType.Z_BOX, VertexType.BOUNDARY)
+            inds.append(f'{v}' if own_index else f'{v}_{i}_{j}')
+            ends[v].append(inds[-1])
+        edges.append((tuple(inds), g.edge_type(edge)))
+
     # Here we have phase tensors corresponding to Z-spiders with only one output and no input.
+    isolated = 1.0
     for v in g.vertices():
-        if g.type(v) == VertexType.Z and g.phase(v) != 0:
-            phase = g.phase(v)
-            if isinstance(phase, Poly):
-                raise NotImplementedError("Quimb does not support symbolic phases")
-            tensors.append(qtn.Tensor(data = [1, np.exp(1j * np.pi * phase)],
-                                      inds = (f'{v}',),
-                                      tags = ("V",)))
-    
+        ty = g.type(v)
+        if ty == VertexType.BOUNDARY: continue
+        phase = g.phase(v)
+        if isinstance(phase, Poly):
+            raise NotImplementedError("Quimb does not support symbolic phases")
+        if ty == VertexType.Z or ty == VertexType.Z_BOX:
+            label = complex(get_z_box_label(g, v)) if ty == VertexType.Z_BOX else np.exp(1j * np.pi * phase)
+            if not ends[v]: # an isolated spider is a number
+                isolated *= 1 + label
+            elif len(ends[v]) == 1 or label != 1: # (an index that occurs only once would be an open index)
+                tensors.append(qtn.Tensor(data = [1, label], inds = (f'{v}',), tags = ("V",)))
+        else:
+            data = H_to_tensor(len(ends[v]), np.pi * phase) if ty == VertexType.H_BOX else W_to_tensor(len(ends[v]))
+            if not ends[v]: isolated *= complex(data)
+            else: tensors.append(qtn.Tensor(data = data, inds = tuple(ends[v]), tags = ("V",)))
+
 
     # Hadamard or Kronecker tensors, one for each edge of the diagram.
-    for i, edge in enumerate(g.edges()):
-        x, y = edge
-        isHadamard = g.edge_type(edge) == EdgeType.HADAMARD
-        t = qtn.Tensor(data = qu.hadamard() if isHadamard else np.array([1, 0, 0, 1]).reshape(2, 2),
-                       inds = (f'{x}', f'{y}'),
+    for inds, edge_type in edges:
+        isHadamard = edge_type == EdgeType.HADAMARD
+        data = qu.hadamard() if isHadamard else np.array([1, 0, 0, 1]).reshape(2, 2)
+        if inds[0] == inds[1]: # a self-loop
+            data, inds = np.diag(data), inds[:1]
+        t = qtn.Tensor(data = data,
+                       inds = inds,
                        tags = ("H",) if isHadamard else ("N",))
         tensors.append(t)
 
-    # TODO: This is not taking care of all the stuff that can be in g.scalar
-    # In particular, it doesn't check g.scalar.phasenodes
-    # TODO: This will give the wrong tensor when g.scalar.is_zero == True.
     # Grab the float factor and exponent from the scalar
     phase = g.scalar.phase
     if isinstance(phase, Poly):
@@ -86,6 +108,8 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
         if isinstance(node, Poly):
             raise NotImplementedError("Quimb does not support symbolic phases")
         scalar_float *= 1 + np.exp(1j * np.pi * node)
+    scalar_float *= isolated
+    if g.scalar.is_zero: scalar_float = 0.0
     scalar_exp = math.log10(math.sqrt(2)) * g.scalar.power2
 
     # If the TN is empty, create a single 0-tensor with scalar factor, otherwise
-- 
2.43.0


From 4ef0034d94890d57c1ffd3767c697d31dfd0db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:50 +0000
Subject: [PATCH 125/173] fix: tensorfy contracts the Hadamard edges of a W
 node in the right order

---
 pyzx/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index acc5388..be94773 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -177,7 +177,7 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     t = np.tensordot(t, had if ety == EdgeType.HADAMARD else id2, ([0,1],[0,1]))
                     d -= 2
             earlier = [(n,ety) for n,ety in legs if rows[n]<r or (rows[n]==r and n<v)] # TODO: allow ordering on vertex indices?
-            earlier.sort(key=lambda leg: leg[1])
+            earlier.sort(key=lambda leg: leg[1] == EdgeType.HADAMARD)
             nn = [n for n,_ in earlier]
             for _,ety in earlier:
                 if ety == EdgeType.HADAMARD:
-- 
2.43.0


From f09010b4458ae7dcd220b33df21ac2e13ac38783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:19 +0000
Subject: [PATCH 126/173] fix: the last row or column of a Mat2 can be selected
 with index -1 together with a slice

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 19cc4e2..b8aae60 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -67,8 +67,8 @@ class Mat2(object):
         if isinstance(key,tuple):
             rs,cs = key
             if isinstance(rs,slice) or isinstance(cs,slice):
-                if not isinstance(rs,slice): rs = slice(rs,rs+1)
-                if not isinstance(cs,slice): cs = slice(cs,cs+1)
+                if not isinstance(rs,slice): rs = slice(rs,rs+1 or None)
+                if not isinstance(cs,slice): cs = slice(cs,cs+1 or None)
                 return Mat2([row[cs] for row in self.data[rs]])
             else:
                 return self.data[rs][cs]
-- 
2.43.0


From 9f1fb9846d1f7d0c5ff164f0fe985f03156f8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 127/173] fix: Architecture: find cut vertices for any vertex
 names of the coupling graph

---
 pyzx/routing/architecture.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 11ad443..78de13a 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -205,7 +205,7 @@ class Architecture():
         elif pre_calc:
             self.pre_calc_non_cutting_vertices()
         else:
-            subgraph_cutting = self._is_cutting(vertices=[self.vertices[i] for i in subgraph_vertices])
+            subgraph_cutting = self._is_cutting(vertices=subgraph_vertices)
             self._non_cutting_vertices[hash] = [subgraph_vertices[i] for i, cutting in enumerate(subgraph_cutting) if not cutting]
 
         return self._non_cutting_vertices[hash]
@@ -218,9 +218,10 @@ class Architecture():
         number_of_nodes = len(vertices)
         discovery_times = [-1]*number_of_nodes
         lows: List[int] = [len(vertices)*2]*number_of_nodes
-        index_lookup = {self.vertices[v]:i for i, v in enumerate(vertices)}
+        index_lookup = {v:i for i, v in enumerate(vertices)}
         self.dfs_counter = 0
-        edges = [e for e in self.graph.edges() if e[0] in vertices and e[1] in vertices]
+        edges = [self.graph.edge_st(e) for e in self.graph.edges()]
+        edges = [e for e in edges if e[0] in vertices and e[1] in vertices]
         edges += [(v2, v1) for v1, v2 in edges]
         cutting = [False] * number_of_nodes
         parent = [-1] * number_of_nodes
-- 
2.43.0


From 3af425d7607ca80d0853464eb4f998e2c97a054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 128/173] fix: Architecture.shortest_path: search breadth first

---
 pyzx/routing/architecture.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 78de13a..8ff099c 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -331,11 +331,10 @@ class Architecture():
   
         while queue != []: 
             
-            node, path = queue.pop() 
+            node, path = queue.pop(0)
             if node == end:
                 return path
-            edges = [edge for edge in self.graph.edges() if node in edge]
-            neighbors = [n for edge in edges for n in edge if n != node and n in nodes]
+            neighbors = [n for n in self.graph.neighbors(node) if n in nodes]
             for new_node in neighbors: 
                 if new_node not in visited: 
                     queue.append((new_node, path + [new_node]))
-- 
2.43.0


From ee66953ca1170e3b547785d70e37d73a7c26bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 129/173] fix: Architecture.steiner_tree: walk along the edges
 of the tree only

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 8ff099c..1906dd6 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -410,7 +410,7 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited]
+            neighbors = [v for v in self.graph.neighbors(node) if (node, v) in edges and v not in visited]
 
             for v in neighbors:
                 queue.append(v)
-- 
2.43.0


From 453e1e5c253befe0685234dd5bb77a3b15f8dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 130/173] fix: Architecture.steiner_tree: restrict the region
 by qubits instead of vertices

---
 pyzx/routing/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 1906dd6..07503f1 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -129,8 +129,8 @@ class Architecture():
             until indicates the number of qubits to consider, for "full" the distance is calculated only between qubits with index <= until),
             and for "upper" the distance is calculated only between qubits with index >= until)
         """
-        return {"upper": [self.floyd_warshall(self.vertices[until:], upper=True) for until, v in enumerate(self.vertices)],
-                "full": [self.floyd_warshall(self.vertices[:until+1], upper=False) for until, v in enumerate(self.vertices)]}
+        return {"upper": [self.floyd_warshall(self.qubit_map[until:], upper=True) for until in range(self.n_qubits)],
+                "full": [self.floyd_warshall(self.qubit_map[:until+1], upper=False) for until in range(self.n_qubits)]}
 
     def _get_reduce_order(self) -> List[int]:
         vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
@@ -364,14 +364,14 @@ class Architecture():
         target_nodes = set(self.qubit2vertex(q) for q in qubits_to_use)
 
         # Check that all nodes are valid and that there are no duplicates
-        assert all(n >= root if upper else n <= root for n in target_nodes)
+        assert all(q >= start_qubit if upper else q <= start_qubit for q in qubits_to_use)
         assert len(qubits_to_use) == len(set(qubits_to_use))
         
         # The vertices and edges of the generated tree
         tree_vertices: Set[int] = {root}
         edges: Set[Tuple[int,int]] = set()
-        # Map with all distances between nodes with index <= root (if not upper) or index >= root (if upper), and the corresponding shortest paths
-        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][root] if upper else self.distances["full"][root]
+        # Map with all distances between qubits with index <= root (if not upper) or index >= root (if upper), and the corresponding shortest paths
+        distances: Dict[Tuple[int,int], Tuple[int,List[Tuple[int,int]]]] = self.distances["upper"][start_qubit] if upper else self.distances["full"][start_qubit]
         # Nodes that are not yet in the tree
         remaining_nodes = set(n for n in target_nodes if n != root)
         # Non-target nodes added to the tree
-- 
2.43.0


From c3b8280b8ee084c3201d430e6b03b14ed4262225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 131/173] fix: Architecture.transpose: do not renumber the
 qubits of the original

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 07503f1..1accf5f 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -479,7 +479,7 @@ class Architecture():
     def transpose(self):
         # TODO make a transposed copy of self
         qubit_map = list(reversed(self.qubit_map))
-        arch = Architecture(self.name + "_transpose", coupling_graph=self.graph, qubit_map=qubit_map)
+        arch = Architecture(self.name + "_transpose", coupling_graph=self.graph.clone(), qubit_map=qubit_map)
         return arch
         
     def arities(self) -> List[Tuple[int, int]]:
-- 
2.43.0


From 136f926085654cd0882402f9dddcbdcd91fc1781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 132/173] fix: couplings of the IBMQ Poughkeepsie device

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 1accf5f..68a8946 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -647,7 +647,7 @@ def create_ibmq_poughkeepsie(backend=None, **kwargs):
     vertices = graph.add_vertices(20)
     edges = connect_vertices_in_line(vertices)
     cross_edges = [
-        (0,5), (7,1), (5,14), (10,19)
+        (0,9), (7,12), (5,14), (10,19)
     ]
     edges.extend([(vertices[v1], vertices[v2]) for v1, v2 in cross_edges])
     graph.add_edges(edges)
-- 
2.43.0


From ecd6df2cd5846acee4128b87300caae9f9b8b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 133/173] fix: couplings of the IBM Rochester device

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 68a8946..815fb9b 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -820,7 +820,7 @@ def create_ibm_rochester(backend=None, **kwargs):
     graph = Graph(backend=backend)
     vertices = graph.add_vertices(53)
     edges = connect_vertices_in_line([vertices[i] for i in range(53) if i not in [7, 14, 17,30,37, 40]])
-    extra_edges = [(7, 8), (7,20), (14,15), (14,44), (17,18), (17, 28), (0,22), (30,31), (30,42), (37, 38), (40,41), (40,51)]
+    extra_edges = [(7, 8), (7,20), (14,15), (14,45), (17,18), (17, 28), (0,22), (30,31), (30,43), (37, 38), (40,41), (40,51)]
     edges += [(vertices[v1], vertices[v2]) for v1, v2 in extra_edges]
     graph.add_edges(edges)
     return Architecture(IBM_ROCHESTER, coupling_graph=graph, backend=backend, **kwargs)
-- 
2.43.0


From a7beb37e12f66be13175bc467cfbaaabd87084b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 134/173] fix: couplings of the Google Sycamore device

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 815fb9b..caaa192 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -837,7 +837,7 @@ def create_google_sycamore(backend=None, **kwargs):
     extra_edges += list(zip(list(range(33,38)), [32] + list(range(43,39, -1))))
     extra_edges += list(zip(list(range(42,38, -1)), [45,46,48,47]))
     extra_edges += list(zip([45,46],[50,51]))
-    extra_edges += list(zip([1,6,21,33,47,50,12,32,31],[4,7,24,38, 48,51,13,43,33]))
+    extra_edges += list(zip([1,6,21,23,47,50,12,32,31],[4,7,24,38,23,51,13,43,33]))
     edges += [(vertices[v1], vertices[v2]) for v1, v2 in extra_edges]
     graph.add_edges(edges)
     arch = Architecture(GOOGLE_SYCAMORE, coupling_graph=graph, backend=backend, **kwargs)
-- 
2.43.0


From 24529060f6be0c85b6c1defe5616fa0e969f6cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 135/173] fix: create_dynamic_density_architecture: use the
 graph interface

---
 pyzx/routing/architecture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index caaa192..373bfe1 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -790,7 +790,7 @@ def create_dynamic_density_architecture(n_qubits, density_prob=0.1, backend=None
     vertices = graph.add_vertices(n_qubits)
     for v,u in itertools.combinations(vertices, 2):
         if np.random.rand() < density_prob:
-            graph.add_edge(v,u)
+            graph.add_edge((v,u))
     # Make sure it is connected
     to_explore = set(vertices)
     explored = set()
@@ -800,14 +800,14 @@ def create_dynamic_density_architecture(n_qubits, density_prob=0.1, backend=None
         if explored:
             # Add an edge to the explored component
             v = np.random.choice(tuple(explored))
-            graph.add_edge(root, v)
+            graph.add_edge((root, v))
         to_explore.remove(root)
         explored.add(root)
         # Mark the connected component as explored
         queue = [root]
         while queue:
             v = queue.pop(0)
-            for u in v.neighbors:
+            for u in graph.neighbors(v):
                 if u in to_explore:
                     to_explore.remove(u)
                     explored.add(u)
-- 
2.43.0


From 0a3e58b353bb3cd745204bf54280cf1687912132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 136/173] fix: steiner_gauss: the full reduction walks the
 whole Steiner tree

---
 pyzx/routing/steiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 4e28321..00b2481 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -68,6 +68,7 @@ def steiner_gauss(
                     row_add(s1, s0)
                     if debug:
                         print(matrix[s0, col], matrix[s1, col])
+        else:
             if (
                 next_check is not None and matrix[next_check[0], col] == 0
             ):  # root is zero
-- 
2.43.0


From 3256487f408eb4ed5fe28caf06f18c8e6e4c7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 137/173] fix: CNOT_tracker.add_gate: track CNOTs that are
 given by name

---
 pyzx/routing/parity_maps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index f14c885..e711614 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -65,10 +65,13 @@ class CNOT_tracker(Circuit):
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-        self.add_gate("CNOT", q0, q1)
+        super().add_gate("CNOT", q0, q1)
         self.matrix.row_add(q0, q1)
 
     def add_gate(self, gate: Union[Gate,str], *args, **kwargs):
+        if isinstance(gate, str):
+            gate = gate_types[gate](*args, **kwargs)
+            args, kwargs = (), {}
         if isinstance(gate, CNOT):
             self.row_add(gate.control, gate.target)
         else:
-- 
2.43.0


From 1ff5d862877c971acedda015c94cfb04c8a2f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 138/173] fix: CNOT_tracker.cnot_depth: compute the depth

---
 pyzx/routing/parity_maps.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index e711614..0eafbda 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -51,17 +51,12 @@ class CNOT_tracker(Circuit):
 
     def cnot_depth(self) -> int:
         """Returns the CNOT/CZ depth of the tracked circuit."""
-        depth = 1
-        previous_gates: List[int] = []
+        depths = [0] * self.n_qubits
         for g in self.gates:
             if hasattr(g, "name") and g.name in ["CNOT", "CZ"]:
-                if g.control in previous_gates or g.target in previous_gates:  # type: ignore # Overlapping gate
-                    # Start a new CNOT layer
-                    previous_gates = []
-                    depth += 1
-                else:
-                    previous_gates += [g.control, g.target]  # type: ignore
-        return depth
+                depth = max(depths[g.control], depths[g.target]) + 1  # type: ignore
+                depths[g.control] = depths[g.target] = depth  # type: ignore
+        return max(depths, default=0)
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-- 
2.43.0


From df8470146abf8308588108c8f3a3cd694ddd5625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 139/173] fix: CNOT_tracker.to_qasm: keep the permutations of
 many qubits within their comment lines

---
 pyzx/routing/parity_maps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 0eafbda..3e280bd 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -106,8 +106,8 @@ class CNOT_tracker(Circuit):
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
-        initial_perm = "// Initial wiring: " + str(self.row_perm)
-        end_perm = "// Resulting wiring: " + str(self.col_perm)
+        initial_perm = "// Initial wiring: " + str(self.row_perm).replace("\n", "")
+        end_perm = "// Resulting wiring: " + str(self.col_perm).replace("\n", "")
         return "\n".join([initial_perm, end_perm, qasm])
 
     @staticmethod
-- 
2.43.0


From 04d955a39a071ed0136e520281c6887d1b768638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 140/173] fix: CNOT_tracker.from_circuit: do not share the gate
 list

---
 pyzx/routing/parity_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 3e280bd..387efb9 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -113,7 +113,7 @@ class CNOT_tracker(Circuit):
     @staticmethod
     def from_circuit(circuit: Circuit) -> "CNOT_tracker":
         new_circuit = CNOT_tracker(circuit.qubits, name=circuit.name)
-        new_circuit.gates = circuit.gates
+        new_circuit.gates = list(circuit.gates)
         new_circuit.update_matrix()
         return new_circuit
 
-- 
2.43.0


From 41fc04741d96dd8dbde7bf53efbd0d0df96a92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 141/173] fix: GeneticAlgorithm: complete a partial solution
 with the rest of the initial order

---
 pyzx/routing/machine_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index 87c24bb..bd8af16 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -83,7 +83,7 @@ class GeneticAlgorithm:
         for _ in range(n_generations):
             self._update_population(n_child)
         if partial_solution and initial_order is not None:
-            return self.population[0] + initial_order[n_qubits:]
+            return list(self.population[0][0]) + list(initial_order[n_qubits:])
         return self.population[0][0]
 
     def _add_children(self, children):
-- 
2.43.0


From ad6536962285381e1a6728869fed5f40908cf17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 142/173] fix: gauss: report the rank in Steiner mode

---
 pyzx/routing/cnot_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/cnot_mapper.py b/pyzx/routing/cnot_mapper.py
index 690998d..5c172d2 100644
--- a/pyzx/routing/cnot_mapper.py
+++ b/pyzx/routing/cnot_mapper.py
@@ -205,7 +205,7 @@ def gauss(
                 "with type",
                 type(matrix.data),
             )
-        rank = 0  # TODO: The rank is not being computed here
+        rank = matrix.rank()
     elif mode == ElimMode.GENETIC_STEINER_MODE:
         perm, circuit, rank = permuted_gauss(
             matrix,
-- 
2.43.0


From fedf0d64cf31d6f3033d651119b477254d2f64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 143/173] fix: rec_steiner_gauss: reduce completely on
 architectures without a Hamiltonian path

---
 pyzx/routing/architecture.py | 22 +++++++++++++---------
 pyzx/routing/steiner.py      | 17 ++++-------------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 373bfe1..3d3a9ed 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -132,17 +132,21 @@ class Architecture():
         return {"upper": [self.floyd_warshall(self.qubit_map[until:], upper=True) for until in range(self.n_qubits)],
                 "full": [self.floyd_warshall(self.qubit_map[:until+1], upper=False) for until in range(self.n_qubits)]}
 
-    def _get_reduce_order(self) -> List[int]:
-        vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
+    def _get_reduce_order(self, qubits: Optional[List[int]]=None) -> List[int]:
+        remaining = set(qubits if qubits is not None else range(self.n_qubits))
+        # Span the qubits with a tree that connects each qubit with its smallest larger neighbor.
+        tree: Dict[int, Set[int]] = {q: set() for q in remaining}
+        for q in remaining:
+            larger = [n for n in self.get_neighboring_qubits(q) if n > q and n in remaining]
+            if larger:
+                tree[q].add(min(larger))
+                tree[min(larger)].add(q)
         # Pick leaf with largest label every time.
         reduce_order = []
-        while vertices:
-            all_cutting = self._is_cutting(vertices) # Get which vertices are cutting
-            # All False indices correspond to a leaf, we want the first one
-            leaf = all_cutting.index(False)
-            # Which logical qubit is stored in the leaf node?
-            reduce_order.append(self.vertex2qubit(vertices[leaf]))
-            del vertices[leaf]
+        while remaining:
+            leaf = max(q for q in remaining if len(tree[q] & remaining) <= 1)
+            reduce_order.append(leaf)
+            remaining.remove(leaf)
 
         return reduce_order
 
diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 00b2481..ebec72c 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -242,17 +242,10 @@ def rec_steiner_gauss(
                 # Vertices we can still use steiner trees
                 usable_nodes = qubit_removal_order[i:]  # = R
 
-                # Pick the maximal vertex k in R: k = max(usable_nodes)
                 # Pick the maximal leaf k' in R: k' = cols[i] = c
-                # Let W be the set of vertices in the shortest path from k' to k (inclusive)
-                path = architecture.shortest_path(
-                    c, max(usable_nodes)
-                )  # , usable_nodes)
-                if path is None:
-                    raise ValueError(
-                        f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
-                    )
-                rec_qubits = [architecture.vertex2qubit(v) for v in path]
+                # Let W be the set of vertices in R from k' on (for a depth first placement, the path from k' to the maximal vertex in R).
+                # The rows of W can be added to each other, since they are zero in all columns outside W.
+                rec_qubits = [q for q in usable_nodes if q >= c]
 
                 # Apply steiner up:
                 # Pick the nodes of the steiner tree: all rows with a 1 in column c or the pivot row (diagonal)
@@ -265,9 +258,7 @@ def rec_steiner_gauss(
 
                 # Do recursion on the recursive nodes that were allowed to break the the upper triangular form.
                 if len(rec_qubits) > 1:  # Trivial otherwise
-                    rec_step(
-                        list(reversed(rec_qubits))
-                    )  # [n for n in rows if n in rec_qubits])
+                    rec_step(architecture._get_reduce_order(rec_qubits))
 
     # The qubit order is the order in which the spanning tree R is traversed
     rec_step(architecture.reduce_order)
-- 
2.43.0


From f60e9038ea9c5669bef41b366f453dd60c717204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:29 +0000
Subject: [PATCH 144/173] fix: CNOT_tracker.prepend_gate: track prepended CNOTs

---
 pyzx/routing/parity_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 387efb9..816ce1f 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -75,7 +75,6 @@ class CNOT_tracker(Circuit):
     def col_add(self, q0: int, q1: int):
         """Track a column addition operation on the matrix"""
         self.prepend_gate("CNOT", q1, q0)
-        self.matrix.col_add(q0, q1)
 
     @staticmethod
     def get_metric_names() -> List[str]:
@@ -103,6 +102,8 @@ class CNOT_tracker(Circuit):
             gate_class = gate_types[gate]
             gate = gate_class(*args, **kwargs)
         self.gates.insert(0, gate)
+        if isinstance(gate, CNOT):
+            self.matrix.col_add(gate.target, gate.control)
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
-- 
2.43.0


From fb4851ca55b390572d12b5cd0394959a850bb0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 145/173] fix: PhasePoly: place each parity once when
 optimizing the parity order

---
 pyzx/routing/phase_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index b3ad677..073c1eb 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -490,7 +490,7 @@ class PhasePoly:
     def _place_parities(self, parities: Union[Mat2, MatLike]) -> List[int]:
         if isinstance(parities, Mat2):
             parities = parities.data
-        permutation = [0] * self.n_qubits
+        permutation: List[Any] = [None] * self.n_qubits
         skipped_parities = []
         # Greedily map identity rows
         for i, parity in enumerate(parities):
-- 
2.43.0


From b148dfc6962f4d78d56f488ef360207fa07f98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 146/173] fix: PhasePoly.Ariannes_synth: do not permute the
 output parities

---
 pyzx/routing/phase_poly.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index 073c1eb..8b014e0 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -878,6 +878,12 @@ class PhasePoly:
             architecture = create_architecture(
                 FULLY_CONNECTED, n_qubits=len(self.out_par[0])
             )
+        # The final parities are not up to permutation
+        mode = (
+            ElimMode.GAUSS_MODE
+            if mode == ElimMode.GAUSS_MODE
+            else ElimMode.STEINER_MODE
+        )
         n_qubits = architecture.n_qubits
         # Obtain the parities
         parities_to_reach = self.all_parities
-- 
2.43.0


From 90193d912c28125dcd218a1702c8dab19c1096de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 147/173] fix: calculate_path_sum: account for isolated spiders
 and phase gadgets without targets

---
 pyzx/simulate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 0b4c295..34455b7 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -222,6 +222,8 @@ class SumGraph(object):
 def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
     """Input should be a fully reduced scalar graph-like Clifford+T ZX-diagram. 
     Calculates the scalar it represents."""
+    g = g.copy()
+    g.remove_isolated_vertices()
     if g.num_vertices() < 2: return g.to_tensor().flatten()[0]
     phases = g.phases()
     prefactor = 0
-- 
2.43.0


From 09e0c74093b0098b68f70d763de7e45d09c63c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 148/173] fix: reduce_scalar: turn X spiders into Z spiders
 first

---
 pyzx/simplify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 176d270..f711bab 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -173,6 +173,7 @@ def clifford_simp(g: BaseGraph[VT,ET], matchf: Optional[Callable[[Union[VT, ET]]
 def reduce_scalar(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=None) -> int:
     """Modification of ``full_reduce`` that is tailered for scalar ZX-diagrams.
     It skips the boundary pivots, and it additionally does ``supplementarity_simp``."""
+    to_gh(g)
     i = 0
     while True:
         i1 = id_simp(g, quiet=quiet, stats=stats)
-- 
2.43.0


From 508db1477ec81fdb65a206c071a5bec185a6fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:06 +0000
Subject: [PATCH 149/173] fix: local search on a diagram without a place for
 the congruence leaves it unchanged instead of dividing by zero

---
 pyzx/local_search/congruences.py | 11 ++++++++---
 pyzx/local_search/genetic.py     |  6 ++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyzx/local_search/congruences.py b/pyzx/local_search/congruences.py
index ee509b1..8697039 100644
--- a/pyzx/local_search/congruences.py
+++ b/pyzx/local_search/congruences.py
@@ -144,12 +144,15 @@ def lc_cong2(g, v):
 
 
 def apply_rand_lc(g, weight_func=uniform_weights):
-    """Applies local complementation to randomly selected spider"""
+    """Applies local complementation to randomly selected spider. Returns whether there was one."""
 
     lc_vs = [v for v in g.vertices() if is_lc_vertex(g, v)]
+    if not lc_vs:
+        return False
     weights = weight_func(g, lc_vs)
     lc_v = np.random.choice(lc_vs, 1, p=weights)[0]
     lc_cong2(g, lc_v)
+    return True
 
 
 
@@ -202,12 +205,14 @@ def pivot_cong(g, v1, v2):
 
 
 def apply_rand_pivot(g, weight_func=uniform_weights):
-    """Applies pivoting to a randomly selected pair of connected spiders"""
+    """Applies pivoting to a randomly selected pair of connected spiders. Returns whether there was one."""
 
-    # assumes len(candidates) != 0
     candidates = [e for e in g.edges() if is_pivot_edge(g, e)]
+    if not candidates:
+        return False
     weights = weight_func(g, candidates)
     e_idx = np.random.choice(len(candidates), 1, p=weights)[0]
     e = candidates[e_idx]
     v1, v2 = g.edge_st(e)
     pivot_cong(g, v1, v2)
+    return True
diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c347049..c46c088 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -60,7 +60,8 @@ def rand_pivot(c, g, reduce_prob=0.1):
     """Applies a random pivot to a Mutant"""
 
     g_tmp = g.copy()
-    apply_rand_pivot(g_tmp)
+    if not apply_rand_pivot(g_tmp):
+        return False, (c, g)
 
     g_fr = g_tmp.copy()
     full_reduce(g_fr)
@@ -74,7 +75,8 @@ def rand_lc(c, g, reduce_prob=0.1):
     """Applies a random local complementation to a Mutant"""
 
     g_tmp = g.copy()
-    apply_rand_lc(g_tmp)
+    if not apply_rand_lc(g_tmp):
+        return False, (c, g)
 
     g_fr = g_tmp.copy()
     full_reduce(g_fr)
-- 
2.43.0


From 3fbbff10280d99d4376bcc346e91094fa32bf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:06 +0000
Subject: [PATCH 150/173] fix: the genetic search keeps a copy of its initial
 best candidate, which the first generation mutates in place

---
 pyzx/local_search/genetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c46c088..1a17af5 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -177,7 +177,7 @@ class GeneticOptimizer():
         self.mutants = [Mutant(self.c_orig, self.g_orig) for _ in range(self.n_mutants)]
 
         self.update_scores()
-        best_mutant = min(self.mutants, key=lambda m: m.score)
+        best_mutant = deepcopy(min(self.mutants, key=lambda m: m.score))
         best_score = best_mutant.score
 
         gen_scores = [best_score]
-- 
2.43.0


From 2ae751a0e53497c958758866eb876724f0b09620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:06 +0000
Subject: [PATCH 151/173] fix: top_half selection makes separate mutants of the
 two copies of the best half

---
 pyzx/local_search/genetic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index 1a17af5..fedc74c 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -137,9 +137,11 @@ class GeneticOptimizer():
             n = self.n_mutants // 2
             top_half = ms_tmp[:n]
             if self.n_mutants % 2 == 0:
-                self.mutants = deepcopy(top_half) * 2
+                self.mutants = top_half * 2
             else:
-                self.mutants = deepcopy(top_half) * 2 + deepcopy([ms_tmp[0]])
+                self.mutants = top_half * 2 + [ms_tmp[0]]
+            # Hack to not mess up memory addresses
+            self.mutants = [deepcopy(m) for m in self.mutants]
         elif method == "top_n":
             n = 10
             ms_tmp = self.mutants.copy()
-- 
2.43.0


From 20f50c620a1e8157ad3ed52e653e96abb47c3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:06 +0000
Subject: [PATCH 152/173] fix: annealing scores the fully simplified diagram by
 default, since a pivoted diagram need not be extractable as it is

---
 pyzx/local_search/simulated_annealing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/local_search/simulated_annealing.py b/pyzx/local_search/simulated_annealing.py
index 06d8eec..57cfbad 100644
--- a/pyzx/local_search/simulated_annealing.py
+++ b/pyzx/local_search/simulated_annealing.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 
+from functools import partial
 from tqdm import tqdm
 import random
 import math
@@ -39,7 +40,7 @@ __all__ = ['anneal']
 def anneal(g, iters=1000,
            temp=25,
            cool=0.005,
-           score=g_wgc,
+           score=partial(g_wgc, g_simplify=True),
            cong_ps=[0.5, 0.5],
            lc_select=uniform_weights,
            pivot_select=uniform_weights,
-- 
2.43.0


From b71c92b5677bac8c6c5cfb4d681459bda824b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:07 +0000
Subject: [PATCH 153/173] fix: generate.cnots lists the outputs in the order of
 the qubits

---
 pyzx/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index a87dcce..008ebae 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -234,7 +234,7 @@ def cnots(qubits: int, depth: int, backend:Optional[str]=None) -> BaseGraph:
     outputs = []
     for i in range(qubits):
         inputs.append(i)
-        outputs.append(v-i-1)
+        outputs.append(v-qubits+i)
 
     g.set_inputs(tuple(inputs))
     g.set_outputs(tuple(outputs))
-- 
2.43.0


From dfbe183478d6e78e84d264d4a8ad16ce0776b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:07 +0000
Subject: [PATCH 154/173] fix: cliffordT accepts probabilities whose
 floating-point sum is slightly more than 1

---
 pyzx/generate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index 008ebae..6c9ffe1 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -293,7 +293,8 @@ def cliffordTmeas(
     if p_meas is None: num += 1.0
     else: rest -= p_meas
 
-    if rest < 0: raise ValueError("Probabilities are >1.")
+    if rest < -1e-9: raise ValueError("Probabilities are >1.")
+    rest = max(rest, 0.0)
 
     if p_t is None: p_t = rest / num
     if p_s is None: p_s = rest / num
-- 
2.43.0


From d4e9c8555f3a2364af20ebf297df06860b799705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:07 +0000
Subject: [PATCH 155/173] fix: phase_poly_from_gadgets builds distinct parities
 from integers, at most as many as there are

---
 pyzx/generate.py            | 8 ++++----
 pyzx/routing/parity_maps.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index 6c9ffe1..ebda793 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -658,16 +658,16 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
     :return: A random phase polynomial circuit.
     """
     parities: Set[Parity] = set()
-    if n_gadgets > 2**n_qubits:
-        n_gadgets = n_qubits ^ 3
+    # there are only this many different parities
+    n_gadgets = min(n_gadgets, 2**n_qubits - 1)
     if n_qubits < 26:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
         ):
-            parities.add(Parity(integer + 1, n_qubits))
+            parities.add(Parity(int(integer) + 1, n_qubits))
     elif n_qubits < 64:
         while len(parities) < n_gadgets:
-            parities.add(Parity(np.random.randint(1, 2**n_qubits), n_qubits))
+            parities.add(Parity(int(np.random.randint(1, 2**n_qubits)), n_qubits))
     else:
         while len(parities) < n_gadgets:
             par: Parity = Parity([])
diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 816ce1f..1e7ba56 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -142,7 +142,7 @@ class Parity:
 
     def __init__(self, par: Union[str, int, Iterable[Any]], n_qubits: Optional[int] = None):
         if isinstance(par, int):
-            self.parity = [bool(par & (1 << i)) for i in reversed(range(par.bit_length()))]
+            self.parity = [bool(par & (1 << i)) for i in reversed(range(max(par.bit_length(), n_qubits or 0)))]
         elif isinstance(par, str):
             self.parity = [p != "0" for p in par]
         else:
-- 
2.43.0


From d38804c22d74aac1e40d096c6ae61b6b51095259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:07 +0000
Subject: [PATCH 156/173] fix: generate.spider gives H-boxes their default
 phase

---
 pyzx/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index ebda793..46cdec9 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -86,7 +86,7 @@ def spider(
         if not isinstance(typ, int):
             raise TypeError("Wrong type for spider type: " + str(typ))
     if phase is None:
-        phase = 1 if typ == VertexType.Z_BOX else 0
+        phase = 1 if typ in (VertexType.Z_BOX, VertexType.H_BOX) else 0
     g = Graph()
     if vertex_is_w(typ):
         if inputs != 1:
-- 
2.43.0


From d901916f7d1a755412678ca734268abe1f36adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:07 +0000
Subject: [PATCH 157/173] fix: CNOT_HAD_PHASE_circuit refuses to place a CNOT
 on one qubit instead of looping forever

---
 pyzx/generate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index 46cdec9..471ffc1 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -153,6 +153,7 @@ def CNOT_HAD_PHASE_circuit(
             if not clifford: c.add_gate("T",random.randrange(qubits))
             else: c.add_gate("S",random.randrange(qubits))
         else:
+            if qubits < 2: raise ValueError("Cannot place a CNOT gate on a single qubit")
             tgt = random.randrange(qubits)
             while True:
                 ctrl = random.randrange(qubits)
-- 
2.43.0


From f043e1fd6b17f131ab4db4d05488b12fc0428dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:30 +0000
Subject: [PATCH 158/173] fix: teleport_reduce leaves no phase tracking
 switched on in the diagrams it is given and returns

---
 pyzx/simplify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index f711bab..c8351a3 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -216,15 +216,18 @@ def teleport_reduce(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=
     The only thing that is different in the output graph are the location and value of the phases."""
     s = Simplifier(g)
     s.full_reduce(quiet=quiet, stats=stats)
+    s.mastergraph.track_phases = False
     return s.mastergraph
 
 
 class Simplifier(Generic[VT, ET]):
     """Class used for :func:`teleport_reduce`."""
     def __init__(self, g: BaseGraph[VT,ET]) -> None:
-        g.track_phases = True
+        tracking = g.track_phases
+        g.track_phases = True # so that the copies number their phases
         self.mastergraph = g.copy()
         self.simplifygraph = g.copy()
+        g.track_phases = tracking
         self.simplifygraph.set_phase_master(self)
         self.phantom_phases: Dict[VT, Tuple[VT,int]] = dict()
 
-- 
2.43.0


From e30a7395d170f658de865c4b70502cb322d45767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:02 +0000
Subject: [PATCH 159/173] fix: the cnots command reads the arguments it is
 given

---
 pyzx/scripts/cnot_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/scripts/cnot_generator.py b/pyzx/scripts/cnot_generator.py
index 6b49273..2388928 100644
--- a/pyzx/scripts/cnot_generator.py
+++ b/pyzx/scripts/cnot_generator.py
@@ -57,7 +57,7 @@ parser.add_argument(
 
 
 def main(args):
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     if args.n_cnots is None:
         parser.error(
             message="Please specify the number of CNOT gates to be generated with the -d flag."
-- 
2.43.0


From eef5fb3df2ea509821f0c2048a0721738305d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:02 +0000
Subject: [PATCH 160/173] fix: the phasepoly command can be called more than
 once

---
 pyzx/scripts/phase_poly_generator.py | 38 +++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pyzx/scripts/phase_poly_generator.py b/pyzx/scripts/phase_poly_generator.py
index eb339c2..70f3821 100644
--- a/pyzx/scripts/phase_poly_generator.py
+++ b/pyzx/scripts/phase_poly_generator.py
@@ -27,26 +27,29 @@ if __name__ == "__main__":
     print("Please call this as python -m pyzx phasepoly ...")
     exit()
 
-parser = argparse.ArgumentParser(description=description)
-parser.add_argument("folder", help="The folder where the QASM files should be stored.")
-parser.add_argument(
-    "-q",
-    "--n_qubits",
-    nargs="+",
-    default=9,
-    type=int,
-    help="The number of qubits participating in the circuit.",
-)
-parser.add_argument(
-    "-m",
-    "--n_maps",
-    default=1,
-    type=int,
-    help="The number of circuits to be generated.",
-)
+def make_parser():
+    parser = argparse.ArgumentParser(description=description)
+    parser.add_argument("folder", help="The folder where the QASM files should be stored.")
+    parser.add_argument(
+        "-q",
+        "--n_qubits",
+        nargs="+",
+        default=9,
+        type=int,
+        help="The number of qubits participating in the circuit.",
+    )
+    parser.add_argument(
+        "-m",
+        "--n_maps",
+        default=1,
+        type=int,
+        help="The number of circuits to be generated.",
+    )
+    return parser
 
 
 def main(args):
+    parser = make_parser()
     parser.add_argument(
         "-p",
         "--n_phase_gadgets",
@@ -76,6 +79,7 @@ def main(args):
 
 
 def main_old(args):
+    parser = make_parser()
     parser.add_argument(
         "-d",
         "--n_cnots",
-- 
2.43.0


From fbacae8de4df4804b96fc3babcb7ce545cf60ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 161/173] fix: the opt command says so when it cannot write
 files of the type of its input

---
 pyzx/scripts/circ2circ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/scripts/circ2circ.py b/pyzx/scripts/circ2circ.py
index 18cd302..a144560 100644
--- a/pyzx/scripts/circ2circ.py
+++ b/pyzx/scripts/circ2circ.py
@@ -55,6 +55,9 @@ def main(args):
     ctype = determine_file_type(options.source)
     if options.outformat == 'match':
         dtype = ctype
+        if dtype not in ('qasm', 'qc', 'quipper'):
+            print("Unsupported circuit type {}. Please use qasm, qc or quipper".format(dtype))
+            return
     elif options.outformat not in ('qasm', 'qc', 'quipper'):
         print("Unsupported circuit type {}. Please use qasm, qc or quipper".format(options.outformat))
         return
-- 
2.43.0


From bab7cf2c9cb8efe05e9054249ef812c4449ebd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:24 +0000
Subject: [PATCH 162/173] fix: the LaTeX label of 1/(4*sqrt(2)) says sqrt(2)

---
 pyzx/drawing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index d3f4983..fd9ecca 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -422,7 +422,7 @@ sqrt_vals = {
     math.sqrt(1/2): r"\frac{1}{\sqrt{2}}",
     2*math.sqrt(2): r"2\sqrt{2}",
     math.sqrt(1/2)/2: r"\frac{1}{2\sqrt{2}}",
-    math.sqrt(1/2)/4: r"\frac{1}{2\sqrt{4}}"
+    math.sqrt(1/2)/4: r"\frac{1}{4\sqrt{2}}"
 }
 
 for v,s in simple_vals.items():
-- 
2.43.0


From 576c4e6e281413689ab3e437ade4454ffcd6177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:24 +0000
Subject: [PATCH 163/173] fix: pretty_complex only prints whole multiples of
 sqrt(2) as n*sqrt(2), not also odd multiples of 1/sqrt(2)

---
 pyzx/drawing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index fd9ecca..97fe9b5 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -465,7 +465,7 @@ def pretty_complex(z: complex) -> str:
             if abs(a) > 0.001:
                 if abs(round(a)-a) < 0.0001:
                     out += str(round(a))
-                elif abs(round(a*math.sqrt(2))-a*math.sqrt(2)) < 0.0001:
+                elif abs(round(a/math.sqrt(2))-a/math.sqrt(2)) < 0.0001:
                     v = a/math.sqrt(2)
                     out += f"{round(v):d}\\sqrt{{2}}"
                 else:
@@ -495,7 +495,7 @@ def pretty_complex(z: complex) -> str:
                     else:
                         if abs(round(b)-b) < 0.0001:
                             out += str(round(b))
-                        elif abs(round(b*math.sqrt(2))-b*math.sqrt(2)) < 0.0001:
+                        elif abs(round(b/math.sqrt(2))-b/math.sqrt(2)) < 0.0001:
                             v = b/math.sqrt(2)
                             out += f"{round(v):d}\\sqrt{{2}}"
                         else:
@@ -537,7 +537,7 @@ def pretty_complex(z: complex) -> str:
                     r *= 10**f
                 if abs(round(r)-r) < 0.0001:
                     out += str(round(r))
-                elif abs(round(r*math.sqrt(2))-r*math.sqrt(2)) < 0.0001:
+                elif abs(round(r/math.sqrt(2))-r/math.sqrt(2)) < 0.0001:
                     v = r/math.sqrt(2)
                     out += f"{round(v):d}\\sqrt{{2}}"
                 else:
-- 
2.43.0


From 26a830fdc0abaf25f19dcd09e2fe2a3a032f2831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:24 +0000
Subject: [PATCH 164/173] fix: pretty_complex separates the real part from an
 imaginary part such as (1-sqrt(2)) that is negative but has no sign in front

---
 pyzx/drawing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index 97fe9b5..444e0fa 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -478,7 +478,7 @@ def pretty_complex(z: complex) -> str:
         else:
             for v,s in special_vals.items():
                 if abs(b-v) < 0.0001:
-                    if b > 0:
+                    if out and not s.startswith("-"):
                         out += "+"
                     out += s + "i"
                     imag_part = True
-- 
2.43.0


From 2f7dbbb6a0106806867c540891c9d35dba10d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 165/173] fix: draw_d3 escapes the data it puts into a
 JavaScript string, so that vertex data with quotes or backslashes can be
 shown

---
 pyzx/drawing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/drawing.py b/pyzx/drawing.py
index 444e0fa..b9c76d9 100644
--- a/pyzx/drawing.py
+++ b/pyzx/drawing.py
@@ -367,7 +367,7 @@ showGraph('#graph-output-{id}',
   {node_size}, {hbox}, {labels}, '{scalar_str}');
 </script>""".format(library_code=library_code,
                     id = graph_id,
-                    graph = graphj, 
+                    graph = graphj.replace("\\", "\\\\").replace("'", "\\'"),
                     width=w, height=h, scale=scale, node_size=node_size,
                     hbox = 'true' if auto_hbox else 'false',
                     labels='true' if labels else 'false',
-- 
2.43.0


From 54053307ea83f38e73fabba7c5eb14bc421d0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:13 +0000
Subject: [PATCH 166/173] fix: is_graph_like can look at multigraphs with
 parallel edges

---
 pyzx/simplify.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index c8351a3..f4a44dd 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -424,13 +424,12 @@ def is_graph_like(g: BaseGraph[VT,ET], strict:bool=False) -> bool:
         if g.type(v) not in [VertexType.Z, VertexType.BOUNDARY]:
             return False
 
-    for v1, v2 in itertools.combinations(g.vertices(), 2):
-        if not g.connected(v1, v2):
-            continue
+    for e in g.edges():
+        v1, v2 = g.edge_st(e)
 
         # Z-spiders are only connected via Hadamard edges
         if g.type(v1) == VertexType.Z and g.type(v2) == VertexType.Z \
-           and g.edge_type(g.edge(v1, v2)) != EdgeType.HADAMARD:
+           and g.edge_type(e) != EdgeType.HADAMARD:
             return False
 
         # FIXME: no parallel edges
-- 
2.43.0


From 54cd92fc675475a6d6fdfc0316ee7928a4d006be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:13 +0000
Subject: [PATCH 167/173] fix: polynomials are divided by their leading terms
 for one monomial order, so that exact divisions end with the right quotient

---
 pyzx/symbolic.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index ed9f24c..5ae4ddc 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -209,15 +209,22 @@ class Poly:
             return self * (Fraction(1, other) if isinstance(other, (int, Fraction)) else 1 / other)
         if len(other.terms) == 0:
             raise ZeroDivisionError("division by zero")
+        if len(other.terms) == 1 and not any(v.is_bool for v, _ in other.terms[0][1].vars):
+            return self * other ** -1
+        variables = sorted(self.free_vars() | other.free_vars())
+        def leading_term(p: 'Poly') -> Tuple[int, List[int], Union[int, float, complex, Fraction]]:
+            powers = [(dict(t.vars), c) for c, t in p.terms]
+            return max(((sum(d.values()), [d.get(v, 0) for v in variables], c) for d, c in powers), key=lambda t: t[:2])
+        _, divisor_powers, divisor_coeff = leading_term(other)
         quotient = Poly([])
         while len(self.terms) > 0 and self.degree >= other.degree:
-            leading_term_dividend = sorted(self.terms)[0][1]
-            leading_term_divisor = sorted(other.terms)[0][1]
-            coeff = sorted(self.terms)[0][0] / sorted(other.terms)[0][0]
-            new_term_quotient_vars = [(var, exp - dict(leading_term_divisor.vars).get(var, 0)) for var, exp in leading_term_dividend.vars]
-            new_term_quotient = (coeff, Term(new_term_quotient_vars))
-            quotient.terms.append(new_term_quotient)
-            self -= other * Poly([new_term_quotient])
+            _, powers, coeff = leading_term(self)
+            term = Term([(v, m - n) for v, m, n in zip(variables, powers, divisor_powers) if m != n])
+            if any(n < 0 for _, n in term.vars):
+                break
+            coeff = coeff * Fraction(1, divisor_coeff) if isinstance(divisor_coeff, (int, Fraction)) else coeff / divisor_coeff
+            quotient += Poly([(coeff, term)])
+            self -= other * Poly([(coeff, term)])
         return quotient
 
     def __pow__(self, other: int) -> 'Poly':
-- 
2.43.0


From 447a160c510b43cda8113dfee69609761088eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:14 +0000
Subject: [PATCH 168/173] fix: merged diagrams and subgraphs know the types of
 their variables

---
 pyzx/graph/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 0c913cb..c014f20 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -395,6 +395,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         phase = other.phases()
         grounds = other.grounds()
         self.scalar.mult_with_scalar(other.scalar)
+        self.variable_types.update(other.variable_types)
 
         vert_map = dict()
         edges = []
@@ -419,6 +420,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         ty = self.types()
         phase = self.phases()
         grounds = self.grounds()
+        g.variable_types = self.variable_types.copy()
 
         edges = [e for e in self.edges() \
             if self.edge_st(e)[0] in verts and self.edge_st(e)[1] in verts]
-- 
2.43.0


From 8da2d5afa7e75558df8943cb2abea647373339a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:14 +0000
Subject: [PATCH 169/173] fix: Multigraph.edges(s) gives the edges at s, as the
 simple backend does

---
 pyzx/graph/multigraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index d3f3023..ad12869 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -288,6 +288,9 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             for _ in range(e.s): yield (s, t, EdgeType.SIMPLE)
             for _ in range(e.h): yield (s, t, EdgeType.HADAMARD)
             for _ in range(e.w_io): yield (s, t, EdgeType.W_IO)
+        elif t == None:
+            for v in list(self.graph[s]):
+                yield from self.edges(s, v)
 
     # def edges_in_range(self, start, end, safe=False):
     #    """like self.edges, but only returns edges that belong to vertices
-- 
2.43.0


From 028008d819992e9359c5c63bae4fa3b3c98bf276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:15 +0000
Subject: [PATCH 170/173] fix: old qgraph reader: a phase like -3\pi/4 was read
 as -13/4

---
 pyzx/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/io.py b/pyzx/io.py
index ffb4b34..c4f8986 100644
--- a/pyzx/io.py
+++ b/pyzx/io.py
@@ -30,7 +30,7 @@ def _quanto_value_to_phase(s: str) -> Fraction:
     if r'\pi' in s:
         try:
             r = s.replace(r'\pi','').strip()
-            if r.startswith('-'): r = "-1"+r[1:]
+            if r == '-' or r.startswith('-/'): r = "-1"+r[1:]
             if r.startswith('/'): r = "1"+r
             return Fraction(str(r)) if r else Fraction(1)
         except ValueError:
-- 
2.43.0


From 4f9fa56919362257118dda02bad07c5169f1c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:04 +0000
Subject: [PATCH 171/173] fix: ZH rewrites are not matched around parallel
 edges or self-loops of a Multigraph, and H-box matching accepts its edges

---
 pyzx/hrules.py    | 18 +++++++++++-------
 pyzx/hsimplify.py |  6 ++++--
 pyzx/rules.py     |  5 +++++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 8a8a975..195a339 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -33,7 +33,7 @@ def match_hadamards(g: BaseGraph[VT,ET],
     ty = g.types()
     taken: Set[VT] = set()
     for v in candidates:
-        if ty[v] == VertexType.H_BOX and g.vertex_degree(v) == 2 and g.phase(v) == 1:
+        if ty[v] == VertexType.H_BOX and g.vertex_degree(v) == 2 and g.phase(v) == 1 and rules.has_single_edges(g, v):
             n1,n2 = g.neighbors(v)
             if n1 in taken or n2 in taken: continue
             if n1 not in m and n2 not in m: 
@@ -65,7 +65,7 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
     """Matches Hadamard-edges that are connected to H-boxes, as these can be fused,
     see the rule (HS1) of https://arxiv.org/pdf/1805.02175.pdf."""
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     m : Set[ET] = set()
     ty = g.types()
     while candidates:
@@ -74,6 +74,7 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         v1,v2 = g.edge_st(e)
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
+        if not rules.has_single_edges(g, v1) or not rules.has_single_edges(g, v2): continue
         m.add(e)
         for n in set(g.neighbors(v1)) | set(g.neighbors(v2)): # this includes v1 and v2
             candidates.difference_update(g.incident_edges(n))
@@ -121,7 +122,7 @@ def match_copy(
         if phases[v] not in (0,1) or types[v] == VertexType.BOUNDARY or g.vertex_degree(v) != 1:
                     continue
         w = list(g.neighbors(v))[0]
-        if w in taken: continue
+        if w in taken or not rules.has_single_edges(g, w): continue
         tv = types[v]
         if tv == VertexType.H_BOX: tv = VertexType.Z # v is arity 1, so we can treat it as a Z spider
         tw = types[w]
@@ -229,7 +230,7 @@ def match_hbox_parallel_not(
 
     while len(candidates) > 0:
         h = candidates.pop()
-        if types[h] != VertexType.H_BOX or phases[h] != 1: continue
+        if types[h] != VertexType.H_BOX or phases[h] != 1 or not rules.has_single_edges(g, h): continue
 
         for n in g.neighbors(h):
             if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
@@ -283,7 +284,7 @@ def match_par_hbox(
     groupings: Dict[Tuple[FrozenSet[VT],FrozenSet[VT]], Tuple[List[VT],List[VT],List[VT]]] = dict()
     ty = g.types()
     for h in candidates:
-        if ty[h] != VertexType.H_BOX: continue
+        if ty[h] != VertexType.H_BOX or not rules.has_single_edges(g, h): continue
         suitable = True
         neighbors_regular = set()
         neighbors_NOT = set()
@@ -357,7 +358,7 @@ def match_par_hbox_intro(
     groupings: Dict[FrozenSet[VT], List[Tuple[VT,List[VT],Set[VT],Set[VT],Set[VT]]]] = dict()
     ty = g.types()
     for h in candidates:
-        if ty[h] != VertexType.H_BOX: continue
+        if ty[h] != VertexType.H_BOX or not rules.has_single_edges(g, h): continue
         suitable = True
         neighbors_regular = set()
         neighbors_NOT = set()
@@ -477,7 +478,8 @@ def match_hpivot(
             (matchf is None or matchf(h)) and
             g.vertex_degree(h) == 2 and
             types[h] == VertexType.H_BOX and
-            phases[h] == 1
+            phases[h] == 1 and
+            rules.has_single_edges(g, h)
         ): continue
 
         v0, v1 = g.neighbors(h)
@@ -493,6 +495,8 @@ def match_hpivot(
         v1b = [v for v in v1n if types[v] == VertexType.BOUNDARY]
         v1h = [v for v in v1n if types[v] == VertexType.H_BOX and v != h]
 
+        if not all(rules.has_single_edges(g, v) for v in [v0, v1] + v0h + v1h): continue
+
         # check that at least one of v0 or v1 has all pi phases on adjacent
         # hboxes.
         if not (all(phases[v] == 1 for v in v0h)):
diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index a049b99..3545e9f 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -96,12 +96,14 @@ def to_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
         if types[v] != VertexType.H_BOX: continue
         del_e = []
         add_e = []
-        for n in g.neighbors(v):
+        for e in g.incident_edges(v):
+            s,t = g.edge_st(e)
+            n = t if s == v else s
             if types[n] != VertexType.H_BOX: continue
             w = g.add_vertex(VertexType.Z)
             g.set_row(w, (g.row(v)+g.row(n))/2)
             g.set_qubit(w,(g.qubit(v)+g.qubit(n))/2)
-            del_e.append(g.edge(v,n))
+            del_e.append(e)
             add_e.append((v,w))
             add_e.append((w,n))
         g.remove_edges(del_e)
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 7a5359a..d7db7e5 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -76,6 +76,11 @@ def apply_rule(
     if check_isolated_vertices: g.remove_isolated_vertices()
 
 
+def has_single_edges(g: BaseGraph[VT,ET], v: VT) -> bool:
+    """Whether no two edges at the vertex v are parallel and none is a self-loop, which a Multigraph may have."""
+    return g.vertex_degree(v) == len(list(g.neighbors(v)))
+
+
 MatchBialgType = Tuple[VT,VT,List[VT],List[VT]]
 
 def match_bialg(g: BaseGraph[VT,ET]) -> List[MatchBialgType[VT]]:
-- 
2.43.0


From 3f6420bc4a263f64c24e7b22fe4f54b2579ea87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:04 +0000
Subject: [PATCH 172/173] fix: editor rewrites are not matched around parallel
 edges or self-loops of a Multigraph

---
 pyzx/editor_actions.py | 10 ++++++----
 pyzx/rules.py          |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index c6c091b..aab39f2 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -78,6 +78,7 @@ def pauli_matcher(
             if w in paulis and w not in taken: break
         else:
             continue
+        if not rules.has_single_edges(g, v) or not rules.has_single_edges(g, w): continue
         et = g.edge_type(g.edge(v,w))
         if ((types[v] == types[w] and et == EdgeType.HADAMARD) or
             (vertex_is_zx(types[v]) and types[v] != types[w] and et == EdgeType.SIMPLE) or
@@ -147,7 +148,7 @@ def match_hadamard_edge(
         edgef: Optional[Callable[[ET],bool]] = None
         ) -> List[ET]:
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     return [e for e in candidates if g.edge_type(e)==EdgeType.HADAMARD]
 
 
@@ -156,7 +157,7 @@ def match_edge(
         edgef: Optional[Callable[[ET],bool]] = None
         ) -> List[ET]:
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     return [e for e in candidates if g.edge_type(e) != EdgeType.W_IO]
 
 
@@ -219,14 +220,14 @@ def add_Z_identity(g: BaseGraph[VT,ET],
         q = 0.5*(g.qubit(v1) + g.qubit(v2))
         w = g.add_vertex(VertexType.Z, q,r, 0)
         etab[upair(v1,w)] = [1,0] if et == EdgeType.SIMPLE else [0,1]
-        etab[upair(v2,w)] = [1,0]
+        etab.setdefault(upair(v2,w), [0,0])[0] += 1 # for a self-loop, v1 and v2 are the same
     return (etab, [], rem_edges, False)
 
 def match_bialgebra(g: BaseGraph[VT,ET], 
         edgef: Optional[Callable[[ET],bool]] = None
         ) -> List[Tuple[VT,VT]]:
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
-    else: candidates = g.edge_set()
+    else: candidates = set(g.edge_set())
     m = []
     types = g.types()
     phases = g.phases()
@@ -237,6 +238,7 @@ def match_bialgebra(g: BaseGraph[VT,ET],
         if types[v] != VertexType.X:
             v,w = w,v
         if types[v] != VertexType.X: continue
+        if not rules.has_single_edges(g, v) or not rules.has_single_edges(g, w): continue
         if types[w] == VertexType.Z:
             if phases[v] != 0 or phases[w] != 0: continue
             m.append((v,w))
diff --git a/pyzx/rules.py b/pyzx/rules.py
index d7db7e5..6f78cbf 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -428,6 +428,7 @@ def match_pivot_parallel(
         if not ((v0a in (0,1)) and (v1a in (0,1))): continue
         if g.is_ground(v0) or g.is_ground(v1):
             continue
+        if not has_single_edges(g, v0) or not has_single_edges(g, v1): continue
 
         invalid_edge = False
 
-- 
2.43.0


From bbd464eaac1ad9f78a57a92ce608efdeacfaf9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:50 +0000
Subject: [PATCH 173/173] fix: phase teleportation keeps track of the sign of a
 phase that was saved at another vertex

---
 pyzx/simplify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index f4a44dd..c4d8731 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -249,7 +249,6 @@ class Simplifier(Generic[VT, ET]):
                 p2 = self.mastergraph.phase(v2)
             else: return
         if not phase_is_non_clifford(p1): # Need to save non-Clifford location
-            self.simplifygraph.phase_mult[i1] = 1
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
                 self.mastergraph.phase_index[v3] = i1
@@ -257,9 +256,11 @@ class Simplifier(Generic[VT, ET]):
                 p1 = self.mastergraph.phase(v3)
                 if not phase_is_non_clifford(p1+p2):
                     del self.phantom_phases[v1]
-                v1,i1 = v3,i3
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
+                self.simplifygraph.phase_mult[i1] = m1 # The sign with which v3 now occurs
+                v1,i1 = v3,i3
             else:
+                self.simplifygraph.phase_mult[i1] = 1
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-- 
2.43.0

