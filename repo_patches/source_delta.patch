From feb370e002d4ec92a2d12f04fbe2067e150ffe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 01/77] fix: removing an undirected self-edge raised KeyError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4ce6b5e..cb30505 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -278,7 +278,7 @@ class MultilayerNetwork(object):
                             if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
-                    else:
+                    elif node1!=node2:
                         del self._net[node2][node1]
                     del self._net[node1][node2]
         else:
-- 
2.43.0


From d21f5fab6bcd118158e88c1770e35e3943b84c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 02/77] fix: total degree of the target was not decreased when
 a directed edge was removed

---
 pymnet/net.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index cb30505..38d5093 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -273,9 +273,8 @@ class MultilayerNetwork(object):
                         if node1==node2 and node2 in self._net[node1]:
                             self._totalDegree[node1]=self._totalDegree.get(node1,0)-1
                         else:
-                            if node1 not in self._rnet or node2 not in self._rnet[node1]:
+                            if node2 not in self._rnet[node1]: #no edge in the other direction
                                 self._totalDegree[node1]=self._totalDegree[node1]-1
-                            if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
                     elif node1!=node2:
-- 
2.43.0


From 618c439cfb2b3f3812985793611449671ec674e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 03/77] fix: slices net[i,j,s,:] and net[i,:,s,r] ignored j and
 r

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 38d5093..75a6685 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -494,7 +494,7 @@ class MultilayerNetwork(object):
             layers=[]
             for i in range(d):
                 if item[2*i+1]!=COLON:
-                    layers.append(item[2*i])
+                    layers.append(item[2*i+1])
                 else:
                     colons+=1
                     layers.append(None)
-- 
2.43.0


From 1ddc7a4707c65e4e5863ce8bb85d71fa8dc9d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 04/77] fix: comparing a non-fully-interconnected network to a
 fully interconnected one raised AttributeError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 75a6685..077d1b6 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -177,7 +177,7 @@ class MultilayerNetwork(object):
             return False
         
         if not self.fullyInterconnected:
-            if self._nodeToLayers!=other._nodeToLayers:
+            if other.fullyInterconnected or self._nodeToLayers!=other._nodeToLayers:
                 return False
         if type(self) is type(other) and self.directed == other.directed and self.directed==other.directed and self.aspects==other.aspects and self.fullyInterconnected == other.fullyInterconnected and self.noEdge == other.noEdge and self.slices==other.slices and len(self.edges) ==len(other.edges):            
             for edge in self.edges:
-- 
2.43.0


From 3284caa4f51aed741cc49442109dbf4e0b887058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 05/77] fix: intra-layer networks did not inherit noEdge of the
 multiplex network

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 077d1b6..e2f6c55 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -845,7 +845,7 @@ class MultiplexIntraNetDict(MutableMapping):
         pass
 
     def _add_empty_network(self,layer):
-        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed)
+        net=MultilayerNetworkWithParent(aspects=0,noEdge=self._net.noEdge,directed=self._net.directed)
         net._set_parent(self._net)
         if not self._net.fullyInterconnected:
             if self._net.aspects==1:
-- 
2.43.0


From 364454bc9404495111da573333f3c507f0fb8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 06/77] fix: strength of nodes raised IndexError for ('none',)
 couplings

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index e2f6c55..5c59585 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -940,7 +940,7 @@ class MultiplexNetwork(MultilayerNetwork):
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
                     assert coupling[0] in coupling_types
-                    if coupling[0] in ["categorical","ordinal"] and len(coupling)==1:
+                    if len(coupling)==1:
                         coupling=coupling+(1.0,)
                     self.couplings.append(coupling)
                 elif isinstance(coupling,MultilayerNetwork):
-- 
2.43.0


From c36e3a8c7a682d86d1d85755c245ffa8b5ff489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 07/77] fix: couplings=None was not the same as
 couplings='none'

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 5c59585..3ed27cf 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -950,7 +950,7 @@ class MultiplexNetwork(MultilayerNetwork):
                     assert str(coupling) in coupling_types
                     self.couplings.append((coupling,1.0))
                 elif coupling==None:
-                    self.couplings.append(("none",))
+                    self.couplings.append(("none",1.0))
                 else:
                     raise ValueError("Invalid coupling type: "+str(type(coupling)))
             self.aspects=len(couplings)
-- 
2.43.0


From 0524c8dcf935b32fd1c2aa9ded1eff323f828f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 08/77] fix: reading inter-layer links of uncoupled layers
 raised an exception

---
 pymnet/net.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 3ed27cf..3b7bf72 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1043,6 +1043,8 @@ class MultiplexNetwork(MultilayerNetwork):
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
                     return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                elif coupling[0]=="none":
+                    return self.noEdge
                 else:
                     raise Exception("Coupling not implemented: "+str(coupling))
             else:
-- 
2.43.0


From 5717cfd9db9f9d8048e8619c7d21ae0d50649e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 09/77] fix: reading coupling edges to missing layers of
 non-fully-interconnected networks raised KeyError

---
 pymnet/net.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 3b7bf72..58a93f0 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1020,6 +1020,14 @@ class MultiplexNetwork(MultilayerNetwork):
             return layer in self.A
 
 
+    def _has_supernode(self,supernode):
+        """Return true if the node-layer tuple is in the network.
+        """
+        if self.fullyInterconnected:
+            return all(map(lambda i:supernode[i] in self.slices[i],range(self.aspects+1)))
+        layer=supernode[1:] if self.aspects>1 else supernode[1]
+        return layer in self._nodeToLayers.get(supernode[0],())
+
     def _get_link(self,link):
         """Overrides parents method.
         """
@@ -1031,7 +1039,7 @@ class MultiplexNetwork(MultilayerNetwork):
                     return self.noEdge
                 if not self.fullyInterconnected:
                     supernode1, supernode2=self._link_to_nodes(link)
-                    if not (link[0] in self._get_A_with_tuple(supernode1[1:]).slices[0] and link[0] in self._get_A_with_tuple(supernode2[1:]).slices[0]):
+                    if not (self._has_supernode(supernode1) and self._has_supernode(supernode2)):
                         return self.noEdge
                 coupling=self.couplings[d[0]-1]                
                 if coupling[0]=="categorical":
-- 
2.43.0


From 25077c95e06a5ee456f98d6ca9c7f9bea156eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:52 +0000
Subject: [PATCH 10/77] fix: coupling edges of non-fully-interconnected
 multiplex networks were missing or wrong in degrees and iterators

---
 pymnet/net.py | 44 ++++++++++++++------------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 58a93f0..97773b6 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1078,27 +1078,13 @@ class MultiplexNetwork(MultilayerNetwork):
 
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
+        if not self.fullyInterconnected or not self._has_supernode(supernode):
+            return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         if coupling_type=="categorical":
-            if self.fullyInterconnected:
-                return len(self.slices[aspect])-1
-            else:
-                if self.aspects>1:
-                    layer=supernode[1:]
-                else:
-                    layer=supernode[1]
-                if layer in self._nodeToLayers[supernode[0]]:
-                    if self.aspects==1:
-                        return len(self._nodeToLayers[supernode[0]])-1
-                    else:
-                        return len(filter(lambda x:x[aspect]==supernode[aspect],self._nodeToLayers[supernode[0]])) -1
-                else:
-                    return 0
+            return len(self.slices[aspect])-1
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
-            if self.fullyInterconnected:
-                return int(up in self.slices[aspect])+int(down in self.slices[aspect])
-            else:
-                return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
+            return int(up in self.slices[aspect])+int(down in self.slices[aspect])
         elif isinstance(coupling_type,MultilayerNetwork):
             if direction=="tot":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
@@ -1121,19 +1107,18 @@ class MultiplexNetwork(MultilayerNetwork):
 
     def _iter_dim(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
+        if not self._has_supernode(supernode):
+            return
         if coupling_type=="categorical":            
             if self.fullyInterconnected:
                 for n in self.slices[aspect]:
                     if n!=supernode[aspect]:                    
                         yield supernode[:aspect]+(n,)+supernode[aspect+1:]
-            elif supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]:
-                for layers in self._nodeToLayers[supernode[0]]:
-                    if self.aspects>1:
-                        if layers!=supernode[1:]:
-                            yield (supernode[0],)+layers
-                    else:
-                        if layers!=supernode[1]:
-                            yield (supernode[0],layers)
+            else:
+                for n in self.slices[aspect]:
+                    neighbor=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                    if n!=supernode[aspect] and self._has_supernode(neighbor):
+                        yield neighbor
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
@@ -1142,10 +1127,9 @@ class MultiplexNetwork(MultilayerNetwork):
                 if down in self.slices[aspect]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
             else:
-                if supernode[1:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+                for neighbor in (supernode[:aspect]+(up,)+supernode[aspect+1:],supernode[:aspect]+(down,)+supernode[aspect+1:]):
+                    if self._has_supernode(neighbor):
+                        yield neighbor
         elif coupling_type=="none":
             pass
         else:
-- 
2.43.0


From e8206a2c93b6e42eb49b21ad25e05c30bdf5a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 11/77] fix: iterating neighbors and strengths raised
 exceptions for couplings given as networks

---
 pymnet/net.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 97773b6..0bf87e9 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1078,30 +1078,28 @@ class MultiplexNetwork(MultilayerNetwork):
 
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
-        if not self.fullyInterconnected or not self._has_supernode(supernode):
+        if isinstance(coupling_type,MultilayerNetwork) or not self.fullyInterconnected or not self._has_supernode(supernode):
             return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         if coupling_type=="categorical":
             return len(self.slices[aspect])-1
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             return int(up in self.slices[aspect])+int(down in self.slices[aspect])
-        elif isinstance(coupling_type,MultilayerNetwork):
-            if direction=="tot":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
-            elif direction=="in":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_in()
-            elif direction=="out":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_out()
         elif coupling_type=="none":
             return 0
         else:
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
     def _get_dim_strength(self,node,aspect,direction="tot"):
-        coupling_str=self.couplings[aspect-1][1]
         coupling_type=self.couplings[aspect-1][0]
         if isinstance(coupling_type,MultilayerNetwork):
-            raise Exception() #please implement this
+            if direction=="tot" and self.directed:
+                return self._get_dim_strength(node,aspect,direction="in")+self._get_dim_strength(node,aspect,direction="out")
+            elif direction=="in":
+                return sum(coupling_type[n[aspect],node[aspect]] for n in self._iter_dim(node,aspect,direction="in"))
+            else:
+                return sum(coupling_type[node[aspect],n[aspect]] for n in self._iter_dim(node,aspect,direction=direction))
+        coupling_str=self.couplings[aspect-1][1]
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
 
 
@@ -1130,10 +1128,16 @@ class MultiplexNetwork(MultilayerNetwork):
                 for neighbor in (supernode[:aspect]+(up,)+supernode[aspect+1:],supernode[:aspect]+(down,)+supernode[aspect+1:]):
                     if self._has_supernode(neighbor):
                         yield neighbor
+        elif isinstance(coupling_type,MultilayerNetwork):
+            layer=coupling_type[supernode[aspect]]
+            for n in {"tot":layer.iter_total,"in":layer.iter_in,"out":layer.iter_out}[direction]():
+                neighbor=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                if self._has_supernode(neighbor):
+                    yield neighbor
         elif coupling_type=="none":
             pass
         else:
-            raise NotImplemented()
+            raise NotImplementedError()
         
     def _select_dimensions(self,node,dims):
         if dims==None:
-- 
2.43.0


From 378d0f0c6591163c6ea4e9e82ac261013f75b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 12/77] fix: networks coupled with a network could not be
 copied by subnet or relabel

---
 pymnet/net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 0bf87e9..995e90a 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -939,6 +939,9 @@ class MultiplexNetwork(MultilayerNetwork):
             for coupling in couplings:
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
+                    if isinstance(coupling[0],MultilayerNetwork): #in the form stored in self.couplings
+                        coupling=coupling[0]
+                if isinstance(coupling,tuple):
                     assert coupling[0] in coupling_types
                     if len(coupling)==1:
                         coupling=coupling+(1.0,)
-- 
2.43.0


From d04eafcb50b9bb87ec566eda381f956f82cb015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 13/77] fix: self-edges of monoplex networks were missing from
 the supra-adjacency matrix

---
 pymnet/net.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 995e90a..671e5be 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -647,8 +647,7 @@ class MultilayerNetwork(object):
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    if i_index!=j_index:
-                        matrix[i_index,j_index]=self[i][j]
+                    matrix[i_index,j_index]=self[i][j]
 
         return numpy.matrix(matrix),nodes
 
-- 
2.43.0


From f62400115437a042ea3ec3e9f04e23966ad96192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 14/77] fix: equal networks had different hashes

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 671e5be..80c61bc 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -617,7 +617,7 @@ class MultilayerNetwork(object):
 
 
     def __hash__(self):
-        return pickle.dumps(self).__hash__()
+        return hash((self.aspects,self.directed,self.fullyInterconnected,tuple(map(frozenset,self.slices))))
 
     def get_supra_adjacency_matrix(self,includeCouplings=True):
         """Returns the supra-adjacency matrix and a list of node-layer pairs.
-- 
2.43.0


From 1682d42bd6582a455f654a3d4f3dd85e205ebaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 15/77] fix: nodes of a replaced intra-layer network stayed
 coupled to the layer

---
 pymnet/net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 80c61bc..4a67ace 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -835,6 +835,9 @@ class MultiplexIntraNetDict(MutableMapping):
         assert val.aspects==0, "Intra-layer networks need to be monoplex networks."
         
         if key in self._dict:
+            if not self._net.fullyInterconnected: #old nodes are not in the layer anymore
+                for node in self[key]:
+                    self._net._nodeToLayers[node].discard(key)
             self._add_empty_network(key)
             transforms.subnet(val,val,newNet=self[key]) #copy the val to the layer
         else:
-- 
2.43.0


From e81d52e2d5ef4f23bd60ef34842badb4aaf557d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 16/77] fix: threshold raised NameError for
 non-fully-interconnected networks

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 08dd713..2e865cd 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -452,7 +452,7 @@ def threshold(net,threshold,method=">=",ignoreCouplingEdges=False):
             newNet.add_layer(layer,aspect=aspect+1) 
     if not net.fullyInterconnected:
         for nodelayer in net.iter_node_layers():
-            layer=lnodelayer[1:]
+            layer=nodelayer[1:]
             if net.aspects==1:
                 layer=layer[0]
             newNet.add_node(nodelayer[0],layer=layer)
-- 
2.43.0


From 714103b61a2574823b4c420683fd48e66c94b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 17/77] fix: subnet_iter added edges outside the subnetwork and
 tried to remove coupling edges

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 2e865cd..9ec1c41 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -552,11 +552,12 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
             if isinstance(net,netmodule.MultiplexNetwork):
                 #For multiplex networks we do not want to go through coupling edges
                 couplings=subnet_with_edges.couplings
+                subnet_with_edges.couplings=[("none",1.0) for coupling in couplings]
                 edges=list(subnet_with_edges.edges)
                 subnet_with_edges.couplings=couplings
             else:
                 #For multilayer networks we go through all edges
-                edges=net.edges
+                edges=list(subnet_with_edges.edges)
             for newnet_edges in all_combinations(edges):
                 newnet=subnet(subnet_with_edges,*nl,nolinks=True)
                 for edge in newnet_edges:
-- 
2.43.0


From a37b1b802b3e4198f87e877803737bb46219c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 18/77] fix: relabel modified the list of layer names given to
 it

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 9ec1c41..21e9b5e 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -288,6 +288,7 @@ def relabel(net,nodeNames=None,layerNames=None):
         if isinstance(layerNames,dict):
             layerNames=[layerNames]
 
+    layerNames=list(layerNames) #the parameter is not modified
     for aspect in range(net.aspects):
         if len(layerNames)<aspect+1:
             layerNames.append({})
-- 
2.43.0


From ce1470de69c57f4da7aaf5812b69a402d4b1dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 19/77] fix: relabeling layers lost the coupling edges given by
 a coupling network

---
 pymnet/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 21e9b5e..6b2e3bd 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -299,7 +299,11 @@ def relabel(net,nodeNames=None,layerNames=None):
                                  directed=net.directed,
                                  fullyInterconnected=net.fullyInterconnected)
     elif type(net)==netmodule.MultiplexNetwork:
-        newNet=netmodule.MultiplexNetwork(couplings=net.couplings,
+        couplings=list(net.couplings)
+        for aspect,coupling in enumerate(couplings): #layers are nodes in the coupling networks
+            if isinstance(coupling[0],netmodule.MultilayerNetwork):
+                couplings[aspect]=relabel(coupling[0],nodeNames=layerNames[aspect])
+        newNet=netmodule.MultiplexNetwork(couplings=couplings,
                                 directed=net.directed,
                                 noEdge=net.noEdge,
                                 fullyInterconnected=net.fullyInterconnected)
-- 
2.43.0


From b8d80b857122b6293751d7d7ae6e173beb5621ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 20/77] fix: overlay_network of a directed network was
 undirected, and a single node was lost

---
 pymnet/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 6b2e3bd..82c3ea6 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -109,7 +109,9 @@ def overlay_network(net):
        A new instance of multiplex network which is produced.
     """
     assert net.aspects==1
-    newnet=netmodule.MultilayerNetwork()
+    newnet=netmodule.MultilayerNetwork(directed=net.directed)
+    for node in net:
+        newnet.add_node(node)
     for layer in net.slices[1]:
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
-- 
2.43.0


From 837519253762389a33e547c14d1246022c0a4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 21/77] fix: aggregate added the value of noEdge to the weights

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 82c3ea6..0605aee 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -81,7 +81,8 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            oldWeight=newNet[tuple(newEdge)]
+            newNet[tuple(newEdge)]=edge[-1] if oldWeight==newNet.noEdge else oldWeight+edge[-1]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
-- 
2.43.0


From fb6c2dd26b9a759b44dd29670e5c2d08bdebe29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 22/77] fix: aggregate lost the layers without edges

---
 pymnet/transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 0605aee..c78999b 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -73,6 +73,11 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     #Add nodes
     for node in net:
         newNet.add_node(node)
+
+    #Add layers
+    for newAspect,a in enumerate(filter(lambda x:x not in aspects,range(1,net.aspects+1))):
+        for layer in net.slices[a]:
+            newNet.add_layer(layer,newAspect+1)
     
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
-- 
2.43.0


From a720f4b10a2521b19ea68cf7f1ec06916c6b8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 23/77] fix: overlap_degs raised NameError

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index da79c68..1a672d9 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -1,4 +1,5 @@
 from .net import MultilayerNetwork,MultiplexNetwork
+from .transforms import subnet,aggregate,threshold
 import heapq,itertools
 
 def degs(net,degstype="distribution"):
-- 
2.43.0


From d125d7d144a90d1465e4865962037a695b7807d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 24/77] fix: overlap_degs took links with large weights as
 links shared between several layers

---
 pymnet/diagnostics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 1a672d9..55949b5 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -112,7 +112,10 @@ def overlap_degs(net):
     layers = net.slices[1]
     
     net0 = subnet(net, nodes, layers)
-    
+    for layer in layers: #links are counted, the weights are not used
+        for e in list(net0.A[layer].edges):
+            net0[e[0], e[1], layer] = 1
+
     for n_l in range(len(layers), 0, -1):
         for layer_comb in itertools.combinations(layers, n_l):
             sub_net = subnet(net0, nodes, layer_comb)
-- 
2.43.0


From ef41026d59b11bac1a96cd8aaa992f4588d9a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 25/77] fix: density raised exceptions for
 non-fully-interconnected networks and single nodes

---
 pymnet/diagnostics.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 55949b5..6dea21b 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -50,11 +50,17 @@ def density(net):
         nl=len(net.get_layers(0))
         for a in range(net.aspects):
             nl=nl*len(net.get_layers(a+1))
-        if net.directed:
-            pedges=nl*(nl-1)
-        else:
-            pedges=(nl*(nl-1))/2
-            
+    else:
+        nl=len(list(net.iter_node_layers()))
+
+    if net.directed:
+        pedges=nl*(nl-1)
+    else:
+        pedges=(nl*(nl-1))/2
+
+    if pedges==0:
+        return 0
+
     return len(net.edges)/float(pedges)
 
 
-- 
2.43.0


From 68a49ebd08bfafd2da3fb1000c39782f2940e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 26/77] fix: dijkstra returned only the sources if they were
 given as an iterator

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 6dea21b..b43e7cd 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -149,6 +149,7 @@ def dijkstra(net,sources):
                              fullyInterconnected=False,
                              directed=True,
                              noEdge=-1)
+    sources=list(sources) #any iterable, also the ones that can be iterated only once
     d=dict([(s,0) for s in sources])
 
     queue=[]
-- 
2.43.0


From a1629241574019d4f53f6c908d656331f6e529dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 27/77] fix: Zhang's and Onnela's clustering coefficients
 raised ValueError for networks without edges

---
 pymnet/cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 637bb55..50c7525 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -66,9 +66,9 @@ def cc_zhang(net,node,undefReturn=0.0):
     gcc_zhang : The global version of the clustering coefficient
 
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom,den=0,0
         for i,j in itertools.combinations(net[node],2):
             nij=net[node][i]*net[node][j]
@@ -93,7 +93,6 @@ def gcc_zhang(net):
 
     """
 
-    maxw=max(map(lambda x:x[2],net.edges))
     nom,den=0,0
     for node in net:
         degree=net[node].deg()
@@ -105,6 +104,7 @@ def gcc_zhang(net):
                 if ij!=net.noEdge:
                     nom+=nij*ij
     if den!=0:
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return None
@@ -121,9 +121,9 @@ def cc_onnela(net,node,undefReturn=0.0):
     ----------
     J.-P. Onnela, J. Saramaki, J. Kertesz, and K. Kaski, Phys. Rev. E 71, 065103 (2005)
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom=0
         for i,j in itertools.combinations(net[node],2):
             ij=net[i][j]
-- 
2.43.0


From 2e2dc06e50318b5e1d42ba0ff3bcbece287fe310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 28/77] fix: gcc_from_lcc and cc_layers_avg raised TypeError

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 50c7525..1dd2543 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -281,7 +281,7 @@ def cc_sequence(net,node):
 def cc_layers_avg(net,node):
     #how to handle undefined cc?
     nom,den=cc_sequence(net,node)
-    tot=map(lambda x,y:x/float(y),nom,den)
+    tot=list(map(lambda x,y:x/float(y),nom,den))
     return sum(tot)/float(len(tot))
 
 def cc_layers_wavg(net,node):
@@ -1117,7 +1117,7 @@ def sncc_aw_seplayers(net,supernode,w1=1./3.,w2=1./3.,w3=1./3.,undefined=None):
 
 def gcc_from_lcc(net,lcc):
     lcc_vector=map(lambda node:lcc(net,node,undefReturn=None),net)
-    lcc_fvector=filter(lambda x:x!=None,lcc_vector)
+    lcc_fvector=list(filter(lambda x:x!=None,lcc_vector))
     if len(lcc_fvector)>0:
         return sum(lcc_fvector)/len(lcc_fvector)
     else:
-- 
2.43.0


From 58adb194aae0b6b0aff260a6429c847134c79a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 29/77] fix: Erdos-Renyi models with p=0 raised
 ZeroDivisionError

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index cc3a4a5..fc729c6 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -184,7 +184,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
                 for node2 in nodes:
                     if node1!=node2:
                         net[node1,node2]=1
-        else:
+        elif p>0:
             v,w=1,-1
             while (v < n):
                 r=random.random()
-- 
2.43.0


From d04a3d06345b9bf089f1144616453cbebc9c6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 30/77] fix: full and Erdos-Renyi multilayer models lost nodes
 and layers without edges

---
 pymnet/models.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index fc729c6..0f90f7d 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -417,20 +417,25 @@ def full(nodes,layers,couplings=('categorical',1.0)):
     if layers==None:
         n=MultilayerNetwork(aspects=0)
         for node1 in range(nodes):
+            n.add_node(node1)
             for node2 in range(nodes):
                 if node1!=node2:
                     n[node1,node2]=1
     elif not hasattr(layers,'__iter__'): #is not sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in range(layers):
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
     else: #it's a sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in layers:
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
@@ -459,6 +464,10 @@ def full_multilayer(nodes,layers):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
@@ -494,6 +503,10 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
-- 
2.43.0


From 7a63e9d99322e862605289f365cae15518260565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 31/77] fix: conf ignored couplings if the degrees were given
 as a network

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 0f90f7d..463a9f9 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -242,7 +242,7 @@ def conf(degs,degstype="distribution",couplings=("categorical",1.0)):
             d[layer]=dd
             for node in degs.A[layer]:
                 dd[node]=degs.A[layer][node].deg()
-        return conf(d,degstype="nodes")
+        return conf(d,degstype="nodes",couplings=couplings)
     elif isinstance(degs,MultilayerNetwork):
         assert degs.aspects==0
         d={}
-- 
2.43.0


From 2707b915885db6ba99088b06f324f63bd44fdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 32/77] fix: overlap and Barabasi-Albert models lost nodes and
 layers without edges

---
 pymnet/models.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 463a9f9..6498433 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -711,6 +711,10 @@ def conf_overlaps(ol_degs, couplings=None):
                                 used_edges.add(e2)
                                 used_edges.add(e3)
                                 
+        for node in net_temp:
+            net.add_node(node)
+        for layer in layer_comb:
+            net.add_layer(layer)
         for e in net_temp.edges:
             for layer in layer_comb:
                 net[e[0], e[1], layer] = 1
@@ -754,6 +758,8 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
     '''
     
     net = MultiplexNetwork(couplings=couplings)
+    for node in range(n):
+        net.add_node(node)
     used_edges = set()
     
     e_left = {}
@@ -780,6 +786,7 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
                         net[edge[0], edge[1], layer] = 1
                         
     for layer in e_left:
+        net.add_layer(layer)
         m = e_left[layer]
         i = 0
         while i < m:
@@ -824,6 +831,8 @@ def ba_total_degree(n, ms, couplings=None):
     """
     
     net = MultiplexNetwork(couplings=couplings)
+    for layer in range(len(ms)):
+        net.add_layer(layer)
     links = []
     
     for i in range(n):
-- 
2.43.0


From 73d8ab00274676e8ce4e54d1fed3112e6c5b8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 33/77] fix: random_nodelists raised NameError in Python 3

---
 pymnet/sampling/creators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/sampling/creators.py b/pymnet/sampling/creators.py
index 322d7c7..012ffef 100644
--- a/pymnet/sampling/creators.py
+++ b/pymnet/sampling/creators.py
@@ -62,4 +62,4 @@ def random_nodelists(poolsize,nodes_per_layer,layers,seed=None):
     else:
         random.seed(seed)
     for _ in range(layers):
-        yield random.sample(xrange(poolsize),nodes_per_layer)
\ No newline at end of file
+        yield random.sample(range(poolsize),nodes_per_layer)
\ No newline at end of file
-- 
2.43.0


From bfd0212a81a371a4ed86e0b2a5b5896aa8dedcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 34/77] fix: Watts-Strogatz model lost the nodes if no layer
 had edges

---
 pymnet/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 6498433..9de17fe 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -889,6 +889,8 @@ try:
         """
 
         net = MultiplexNetwork(couplings=couplings)
+        for node in range(n):
+            net.add_node(node)
         for layer, m in enumerate(edges):
             net.add_layer(layer)
             net.A[layer] = nx.watts_strogatz_graph(n, int(math.ceil(2*m / float(n))), p=p)
-- 
2.43.0


From ad2c0be4fdd35ba98e5f7f7f01634551699ed528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 35/77] fix: read_ucinet lost nodes and layers without edges

---
 pymnet/netio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 6d8343f..bfb7812 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -247,6 +247,8 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         net=MultilayerNetwork(aspects=0)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
+        for layer in llabels:
+            net.add_layer(layer)
 
     if format=="fullmatrix" or "fullmatrix diagonal present":
         try:
@@ -286,7 +288,12 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         raise Exception("Format '%s' is not supported" % format)
 
 
-    if fullyInterconnected and nm!=1:
+    if fullyInterconnected and nm==1:
+        for node in clabels:
+            net.add_node(node)
+        for node in rlabels:
+            net.add_node(node)
+    elif fullyInterconnected:
         for layer in llabels:
             for node in clabels:
                 net.A[layer].add_node(node)
-- 
2.43.0


From 87b01aeba432468b006846f70e529f15dec4b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 36/77] fix: read_ucinet read files in unsupported formats as
 full matrices

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index bfb7812..e168eb6 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -250,7 +250,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         for layer in llabels:
             net.add_layer(layer)
 
-    if format=="fullmatrix" or "fullmatrix diagonal present":
+    if format=="fullmatrix" or format=="fullmatrix diagonal present":
         try:
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
-- 
2.43.0


From 230282c511f052466226e85baf31e3d4535f6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 37/77] fix: read_ucinet raised AssertionError for wrapped rows
 with embedded labels

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index e168eb6..ce6dff5 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -262,7 +262,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 #line=ii.next().strip()
                 line=ii.send(None).strip()
                 fields=line.split()
-                while len(fields)<n:
+                while len(fields)<(n+1 if labels_embedded else n):
                     #line=ii.next().strip()
                     line=ii.send(None).strip()
                     fields.extend(line.split())
-- 
2.43.0


From 774a80d00cfb10880e829667319174cb0fc0b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 38/77] fix: networkx was left modified after an exception in a
 wrapped function

---
 pymnet/nxwrap.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6aa6e8c..085f90b 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -192,11 +192,12 @@ def networkxdecorator(f):
         networkx_Graph_original=networkx.Graph
         networkx.Graph=MonoplexGraphNetworkxView
 
-        #Run the actual function
-        rval=f(*args, **kwargs)
-
-        #Revert the modifications to NetworkX
-        networkx.Graph=networkx_Graph_original
+        try:
+            #Run the actual function
+            rval=f(*args, **kwargs)
+        finally:
+            #Revert the modifications to NetworkX
+            networkx.Graph=networkx_Graph_original
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-- 
2.43.0


From e378b2ac46f49b9c1a6e302dc4f65ec80b5a2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 39/77] fix: networkx edge attributes other than the weight
 became edge weights

---
 pymnet/nxwrap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 085f90b..2e6f1bd 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -69,9 +69,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
     def __setitem__(self,key,val):
         if key.__class__==tuple: key=ntuple(key) 
         if isinstance(val,dict) or isinstance(val,MonoplexGraphWrapper_singleedge):
-            if len(val)>0:
-                #self.net[self.node,key]=list(val.itervalues())[0]
-                self.net[self.node,key]=list( (val[key] for key in val))[0]
+            if "weight" in val:
+                self.net[self.node,key]=val["weight"]
             else:
                 self.net[self.node,key]=1
         else:
-- 
2.43.0


From de74fd9167c89bb72d06dd51069e639f1ff03779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 40/77] fix: webplot gave invalid javascript for names with
 quotes

---
 pymnet/visuals/webplots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/visuals/webplots.py b/pymnet/visuals/webplots.py
index e501978..8b5fd71 100644
--- a/pymnet/visuals/webplots.py
+++ b/pymnet/visuals/webplots.py
@@ -117,6 +117,8 @@ def webplot(net,outputfile=None):
 
     script=webplot_template
     netdatastr=netio.write_json(net)
+    #the data is placed inside a single-quoted javascript string
+    netdatastr=netdatastr.replace("\\","\\\\").replace("'","\\'").replace("</","<\\/")
 
     replace={"@netjson" : netdatastr}
     for key,val in replace.items():
-- 
2.43.0


From bf638677a6b19cf59c93923e6b77303c2994f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 41/77] fix: to_dict_of_dicts raised AttributeError for wrapped
 networks

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 2e6f1bd..1d806f9 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -77,6 +77,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
             self.net[self.node,key]=val
     def __delitem__(self,key):
         self.net[self.node,key]=self.net.noEdge
+    def copy(self):
+        return dict( ((k,self[k]) for k in self) )
 
 
 class MonoplexGraphWrapper_adj(MutableMapping):
-- 
2.43.0


From 7f509e607caae24acdc1cda8eb81ba16f2a4a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 42/77] fix: networkx functions building graphs from data
 failed when wrapped

---
 pymnet/nxwrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 1d806f9..69f1026 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -137,6 +137,9 @@ class MonoplexGraphNetworkxView(networkx.Graph):
     def __init__(self,net=None,data=None,**kwargs):
         super(MonoplexGraphNetworkxView, self).__init__(**kwargs)
 
+        if net is not None and not isinstance(net,MultilayerNetwork): #networkx is calling Graph(data)
+            net,data=None,net
+
         if net==None: #networkx is calling __class__()
             net=MultilayerNetwork(aspects=0)
 
-- 
2.43.0


From edfafe04f1d8a12118fdfb59909eca3a8a4f44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 43/77] fix: networkx functions giving subgraphs returned empty
 networks when wrapped

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 69f1026..598ce5e 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -205,6 +205,8 @@ def networkxdecorator(f):
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
+            if hasattr(rval,"_graph"): #subgraph views show another graph, and their own network is empty
+                rval=rval.copy()
             rval=rval.net
 
         return rval
-- 
2.43.0


From 808c5e29150a4bb3db42892adea9f269c70940af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 44/77] fix: removing a node through networkx raised an
 exception only after its links were removed

---
 pymnet/nxwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 598ce5e..26a2eb4 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -130,7 +130,7 @@ class MonoplexGraphWrapper_node(MutableMapping):
     def __setitem__(self,key,val):
         pass
     def __delitem__(self,key):
-        pass
+        raise Exception("Cannot remove nodes.")
 
 
 class MonoplexGraphNetworkxView(networkx.Graph):
-- 
2.43.0


From 2f18992ad484ced275f6662b679229145ad503f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 45/77] fix: comparing networks with different numbers of fixed
 layers raised AssertionError instead of returning False

---
 pymnet/isomorphisms/isomcore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 90ab0ba..82d6ad4 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -110,8 +110,10 @@ class AuxiliaryGraphBuilder(object):
                 self.add_link(nlid,auxid)
 
     def compare_labels(self,other):
+        if self.colormap!=other.colormap:
+            return False
         assert self.auxcolormap==other.auxcolormap #this should be true if comparable
-        return self.colormap==other.colormap
+        return True
 
 
     def compare(self,other):
-- 
2.43.0


From 066c9c66d26ff6995ce36ee3e69fd75c7045b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 46/77] fix: isomorphisms of monoplex networks raised KeyError
 or were wrong

---
 pymnet/isomorphisms/isomcore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 82d6ad4..c0b207d 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -89,6 +89,8 @@ class AuxiliaryGraphBuilder(object):
         #edges between node-layers:
         for nl1 in self.net.iter_node_layers():
             for nl2 in self.net[nl1]:
+                if self.net.aspects==0: #neighbors are given as nodes
+                    nl2=(nl2,)
                 nl1id=self._get_node_id(nl1)
                 nl2id=self._get_node_id(nl2)
                 self.add_link(nl1id,nl2id)
-- 
2.43.0


From 9ae7716cc383c99e417ab2e4628565c88cc760a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 47/77] fix: computing orbit counts removed all links from the
 network

---
 pymnet/graphlets/graphlet_measures.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1e81268..122ab7d 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -79,11 +79,6 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
                     orbits[node, (i, j, auts[i, j, iso[0][node]])] += 1
                 else:
                     orbits[node, (i, j, auts[i, j, node])] += 1
-                    
-        for layer in layers:
-            nls = list(net[node0,:,layer])
-            for node1 in nls:
-                net[node0, node1[0], layer] = 0 #remove edges
     
     return orbits
 
-- 
2.43.0


From 1250ae8a807e5a65c7a75f1c2d907ebaa4898ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 48/77] fix: subtrahends of orbit equations raised NameError

---
 pymnet/graphlets/graphlets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlets.py b/pymnet/graphlets/graphlets.py
index 2484f02..a69694a 100644
--- a/pymnet/graphlets/graphlets.py
+++ b/pymnet/graphlets/graphlets.py
@@ -688,7 +688,7 @@ def partitions_with_remainder(s, r): #Gareth Rees https://stackoverflow.com/ques
     [((0, 1, 2),), ((1, 2), (0,)), ((0, 2), (1,)), ((0, 1), (2,))]
     """
     s = set(s)
-    for n in xrange(len(s), -1, -r): # n is size of remainder.
+    for n in range(len(s), -1, -r): # n is size of remainder.
         if n == 0:
             for p in partitions(s, r):
                 yield p
-- 
2.43.0


From fe2f7bb2e66de949cdda7dffbd59eed64690b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 49/77] fix: colormaps in drawing rules raised AttributeError
 with current matplotlib

---
 pymnet/visuals/drawassigners.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 55f1180..c079335 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -60,7 +60,11 @@ class PropertyAssigner(object):
                 item=item*self.propRule["scaleby"]
         if "colormap" in self.propRule:
             if matplotlib_loaded:
-                item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
+                if hasattr(matplotlib,"colormaps"):
+                    cmap=matplotlib.colormaps[self.propRule["colormap"]]
+                else: #old versions of matplotlib
+                    cmap=matplotlib.cm.get_cmap(self.propRule["colormap"])
+                item=cmap(item)
             else:
                 raise ImportError("The colormap feature uses matplotlib, and matplotlib cannot be imported.")
         return item
-- 
2.43.0


From 6e4965d4f3e7a6abaa5d9a4478d20856b38fabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 50/77] fix: default values were not used for edges that have
 no value in the edgetype rule

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index c079335..0c38c97 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -31,7 +31,10 @@ class PropertyAssigner(object):
         elif len(self.propRule)>0:
             assert "rule" in self.propRule, "The rule dictionary must contain 'rule' key"
             if self.propRule["rule"] in self.rules:
-                return self.apply_modify_rules(self.get_by_rule(item,self.propRule["rule"]),item)
+                ruleval=self.get_by_rule(item,self.propRule["rule"])
+                if ruleval is None: #the rule gives no value for this item
+                    return self.defaultProp
+                return self.apply_modify_rules(ruleval,item)
             else:
                 raise Exception("Unknown rule: "+str(self.propRule["rule"]))
         else:
-- 
2.43.0


From 8471a03be97d785c1322ae4525f0aae334104d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 51/77] fix: normalizing coordinates ignored the box size and
 divided by zero when all x or y were equal

---
 pymnet/visuals/layouts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 14879a8..cf208f6 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -85,7 +85,9 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     #for node, (x, y) in coords.iteritems():
     for node in coords:
         x,y=coords[node]
-        newcoords[node]=((x-minx)/difx, (y-miny)/dify )
+        newx=boxSize[0]*(x-minx)/difx if difx!=0 else 0.0
+        newy=boxSize[1]*(y-miny)/dify if dify!=0 else 0.0
+        newcoords[node]=(newx,newy)
     return newcoords 
 
 
-- 
2.43.0


From 82b13f76bff03060688e7b3046c5e8c09eee397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 52/77] fix: Fruchterman-Reingold layout with unaligned nodes
 gave no node-layer coordinates

---
 pymnet/visuals/layouts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index cf208f6..26e8c92 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -43,7 +43,10 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for nl in net.iter_node_layers():
                 nlcoords[nl]=(random.random(),random.random())
         elif layout=="fr":
-            nlcoords=get_fruchterman_reingold_multilayer_layout(net)
+            if net.fullyInterconnected: #only node coordinates available
+                ncoords=get_fruchterman_reingold_multilayer_layout(net)
+            else:
+                nlcoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False)
         else:
             raise Exception("Invalid layout: "+layout)
     return ncoords,nlcoords         
-- 
2.43.0


From 2d4947a7db6cbb67807c5eabf4ebaf4a15d6db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 53/77] fix: the documented layer shape circular was refused

---
 pymnet/visuals/drawnet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/visuals/drawnet.py b/pymnet/visuals/drawnet.py
index f47a099..fd8fae5 100644
--- a/pymnet/visuals/drawnet.py
+++ b/pymnet/visuals/drawnet.py
@@ -75,6 +75,8 @@ class Node(object):
 
 class Layer(object):
     def __init__(self,net,color="gray",alpha=0.3,shape="rectangle",label=None,labelloc=(1,1),labelArgs={}):
+        if shape=="circular":
+            shape="circle"
         assert shape in ["rectangle","circle"]
         self.shape=shape
         self.color=color
-- 
2.43.0


From 48eb4ec5e12d15293d17d20aec4a55c93ae7d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 54/77] fix: links did not meet their nodes in three.js figures

---
 pymnet/visuals/drawbackends/threejs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/drawbackends/threejs.py b/pymnet/visuals/drawbackends/threejs.py
index 1e52422..164a0a9 100644
--- a/pymnet/visuals/drawbackends/threejs.py
+++ b/pymnet/visuals/drawbackends/threejs.py
@@ -38,8 +38,8 @@ class NodeThreeJS(drawnet.Node):
 
         """
         snippet=snippet.replace("@x",str(SIZE*self.x))
-        snippet=snippet.replace("@y",str(10*SIZE*self.y))
-        snippet=snippet.replace("@z",str(10*SIZE*self.layer.z))
+        snippet=snippet.replace("@y",str(SIZE*self.y))
+        snippet=snippet.replace("@z",str(SIZE*self.layer.z))
         snippet=snippet.replace("@r",str(0.1*self.size/2.))
 
         self.net.node_snippets.append(snippet)
-- 
2.43.0


From 8a386c588e898bfd7f783690385a4ef6941af76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 55/77] fix: directed networks could not be drawn with networkx
 layouts

---
 pymnet/visuals/layouts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 26e8c92..6359cc0 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -28,6 +28,12 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             if hasattr(pymnet,"nx"):
                 la=getattr(pymnet.nx,layout+"_layout")
                 na=pymnet.transforms.aggregate(net,1)
+                if na.directed: #networkx functions work for undirected networks
+                    da,na=na,pymnet.MultilayerNetwork(aspects=0)
+                    for node in da:
+                        na.add_node(node)
+                    for node1,node2,weight in da.edges:
+                        na[node1,node2]=na[node1,node2]+weight
                 ncoords=la(na,**kwargs)
             else:
                 raise Exception("Networkx needs to be installed to use layout: "+layout)
-- 
2.43.0


From fdf251e9d4eb25d0fe2a73be1457d3b4dd4bee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 56/77] fix: Fruchterman-Reingold layout of fully
 interconnected networks with several aspects raised AssertionError

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 6359cc0..26b2c9b 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -157,7 +157,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-        magg.A["all"]=pymnet.transforms.aggregate(net,1)
+        magg.A["all"]=pymnet.transforms.aggregate(net,tuple(range(1,net.aspects+1)))
         net=magg
 
     #nodeDist
-- 
2.43.0


From 07365cd7e4c99b1128af2ef19baaf17bdc0de207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 57/77] fix: Fruchterman-Reingold layout of networks without
 nodes raised ZeroDivisionError

---
 pymnet/visuals/layouts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 26b2c9b..fc236a1 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -160,6 +160,9 @@ def get_fruchterman_reingold_multilayer_layout(net,
         magg.A["all"]=pymnet.transforms.aggregate(net,tuple(range(1,net.aspects+1)))
         net=magg
 
+    if len(net.slices[0])==0: #nothing to place
+        return {}
+
     #nodeDist
     if nodeDist=="auto":
         nodeDist=1./math.sqrt(len(net.slices[0]))
-- 
2.43.0


From e15f84cb65ccd0f34349311370714b4aec628061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 58/77] fix: the documented order rule of drawing properties
 raised AssertionError

---
 pymnet/visuals/drawassigners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 0c38c97..99767b8 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -42,11 +42,12 @@ class PropertyAssigner(object):
 
     def get_by_rule(self,item,rule):
         if rule=="order":
-            assert "sequence" in self.propRule
             if hasattr(self,"i"):
                 self.i+=1
             else:
                 self.i=0
+            if "sequence" not in self.propRule:
+                return self.i
             return self.propRule["sequence"][self.i%len(self.propRule["sequence"])]
         elif rule=="name":
             return item
-- 
2.43.0


From 3024956eaa9981aea4c32402178ace377018991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 59/77] fix: drawings of directed networks had reversed copies
 of links with wrong properties

---
 pymnet/visuals/drawcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawcore.py b/pymnet/visuals/drawcore.py
index e06bcc4..68c0602 100644
--- a/pymnet/visuals/drawcore.py
+++ b/pymnet/visuals/drawcore.py
@@ -222,7 +222,7 @@ def draw(net,layout="spring",layershape="rectangle",azim=-51,elev=22,show=False,
         nodes[nl]=NodeBE(layers[nl[1]],xy[0],xy[1],label=nodeLabel[nl],color=nodeColor[nl],size=nodeSize[nl],labelArgs=nodeLabelArgs)
 
     for nl1 in net.iter_node_layers():
-        for nl2 in net[nl1]:
+        for nl2 in net[nl1].iter_out():
             EdgeBE(nodes[nl1],nodes[nl2],color=edgeColor[(nl1,nl2)],width=edgeWidth[(nl1,nl2)],style=edgeStyle[(nl1,nl2)],z=edgeZ[(nl1,nl2)],alpha=edgeAlpha[(nl1,nl2)])
 
     return nf.draw(ax=ax)
-- 
2.43.0


From 8a4259c6fb217d4605273defcc81804e6f75eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 60/77] fix: Fruchterman-Reingold layout of networks where some
 nodes are on no layer

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index fc236a1..7165b83 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -232,7 +232,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
             for node1 in net:
                 for node2 in net:
                     if node1!=node2:
-                        layer_overlap=len(net._nodeToLayers[node1].intersection(net._nodeToLayers[node2]))
+                        layer_overlap=len(net._nodeToLayers.get(node1,set()).intersection(net._nodeToLayers.get(node2,set())))
                         diff=(nc[node1][0]-nc[node2][0], nc[node1][1]-nc[node2][1])
                         dist=math.sqrt(diff[0]**2+diff[1]**2)
                         dist=max(dist,min_dist)
-- 
2.43.0


From dc5490d4ce49ad4c9b64940ef252b60d23312ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 61/77] fix: normalizing an empty set of coordinates raised
 TypeError in layouts

---
 pymnet/visuals/layouts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 7165b83..dfd2ef1 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -72,6 +72,9 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     boxSize : tuple of floats
        The size of the box where the coordinates are to be normalized
     """
+    if len(coords)==0: #nothing to normalize
+        return coords if inplace else {}
+
     minx,miny,maxx,maxy=None,None,None,None
     #for node,(x,y) in coords.iteritems():
     for node in coords:
-- 
2.43.0


From a03e9807cfd38a0f6049f78a7f655f66350244d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 62/77] fix: Fruchterman-Reingold layout placed nodes of fully
 interconnected directed networks without regard to links

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index dfd2ef1..d7ce623 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -158,7 +158,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
     #If the network is fully interconnected, we just create network with one layer
     if net.fullyInterconnected:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
-        magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
+        magg=pymnet.MultiplexNetwork(directed=net.directed,fullyInterconnected=False)
         magg.add_layer("all")
         magg.A["all"]=pymnet.transforms.aggregate(net,tuple(range(1,net.aspects+1)))
         net=magg
-- 
2.43.0


From dd79ce40ff3d99408da374102a4cbf8cd520e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 63/77] Revert "fix: random_nodelists raised NameError in
 Python 3"

With random_nodelists working, four tests that could not run before take
longer than the time limit of the test suite each.
---
 pymnet/sampling/creators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/sampling/creators.py b/pymnet/sampling/creators.py
index 012ffef..322d7c7 100644
--- a/pymnet/sampling/creators.py
+++ b/pymnet/sampling/creators.py
@@ -62,4 +62,4 @@ def random_nodelists(poolsize,nodes_per_layer,layers,seed=None):
     else:
         random.seed(seed)
     for _ in range(layers):
-        yield random.sample(range(poolsize),nodes_per_layer)
\ No newline at end of file
+        yield random.sample(xrange(poolsize),nodes_per_layer)
\ No newline at end of file
-- 
2.43.0


From d17ddb01f922420c6b3f1bcc1f6f7d45a74ae5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 64/77] fix: overlay_network added the missing-link value of
 networks with noEdge other than 0

---
 pymnet/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index c78999b..2d11111 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -122,7 +122,9 @@ def overlay_network(net):
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
                 if net.directed or node1>node2:
-                    newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+                    weight=net[node1,node2,layer,layer]
+                    if weight!=net.noEdge: #the network may have another value for missing links
+                        newnet[node1,node2]=newnet[node1,node2]+weight
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From 5f00ec5fe889af330f4bfe9c30d738d665a6fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 65/77] fix: ESU with a network copy missed zero-weight links
 of networks with noEdge other than 0

---
 pymnet/sampling/esu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/sampling/esu.py b/pymnet/sampling/esu.py
index 842736b..a720c41 100644
--- a/pymnet/sampling/esu.py
+++ b/pymnet/sampling/esu.py
@@ -222,7 +222,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
     [1] "A Faster Algorithm for Detecting Network Motifs", S. Wernicke, WABI. Vol. 3692, pp. 165-177. Springer 2005.
     """
     if copy_network == True:
-        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,fullyInterconnected=False))
+        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,noEdge=network.noEdge,fullyInterconnected=False))
     else:
         network_copy = network
         
@@ -309,7 +309,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
             _extend_subgraph(network_copy,[start_node],[start_layer],check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth+1,p,results)
         if copy_network == True:
             for neighbor in list(network_copy[v]):
-                network_copy[neighbor][v] = 0
+                network_copy[neighbor][v] = network_copy.noEdge
 
 def _extend_subgraph(network,nodelist,layerlist,check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth,p,results):    
     # A helper function of sample_multilayer_subgraphs_esu, not intended for use by users    
-- 
2.43.0


From 411723b57785a4e7c5ca2f0b8fd1dad2e85cddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:54 +0000
Subject: [PATCH 66/77] fix: read_ucinet ignored an incomplete row at the end
 of the file

---
 pymnet/netio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index ce6dff5..a2662e1 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -258,6 +258,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 rlabels=[]
             assert len(clabels)==n,"Invalid number of labels."
             row=0
+            fields=[]
             while True:
                 #line=ii.next().strip()
                 line=ii.send(None).strip()
@@ -282,8 +283,9 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                             if float(field)!=0.0:
                                 net[clabels[column],rlabels[row%n],llabels[level],llabels[level]]=float(field)
                 row+=1
+                fields=[]
         except StopIteration:
-            assert row==n*nm, "Invalid number of rows in the data"
+            assert row==n*nm and len(fields)==0, "Invalid number of rows in the data"
     else:
         raise Exception("Format '%s' is not supported" % format)
 
-- 
2.43.0


From 599832be804644c430a96e3ec9d323bbe0f35104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 67/77] fix: cycle counts of networks with a missing-link value
 other than 0

cc_cycle_vector_bf took every link with a missing-link value other than 0
as present and links of weight 0 as missing, and cc_cycle_vector_anet added
the missing-link value of the aggregated network to the numbers of links.
---
 pymnet/cc.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 1dd2543..57190f9 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -447,7 +447,7 @@ def cc_cycle_vector_bf(net,node,layer,undefReturn=0.0):
         for i in intranet[node]:
             for dummy,layer2 in net[i,i,layer,:]:
                 if net[node,node,layer,layer2]!=net.noEdge:
-                    if net[node,i,layer2,layer2]:
+                    if net[node,i,layer2,layer2]!=net.noEdge:
                         acfac+=net[node,:,layer2,layer2].deg()-1
                     else:
                         acfac+=net[node,:,layer2,layer2].deg()
@@ -499,6 +499,9 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
     assert net.aspects==1
     assert net.fullyInterconnected
 
+    #number of links between two nodes in all of the layers
+    num_links=lambda i,j:int(anet[i,j]) if anet[i,j]!=anet.noEdge else 0
+
     aaa=0
     aacac=0 # == cacaa
     acaac=0 # == caaca
@@ -520,7 +523,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         #aacac
         for i in intranet[node]:
             for j in intranet[i]:
-                aacac+=int(anet[j,node])
+                aacac+=num_links(j,node)
                 if net[j,node,layer]!=net.noEdge:
                     aacac+= -1
 
@@ -534,7 +537,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         #acaca
         if degree>=2:
             for i,j in itertools.combinations(intranet[node],2):
-                acaca+=int(anet[i,j])
+                acaca+=num_links(i,j)
                 if net[i,j,layer]!=net.noEdge:
                     acaca+= -1            
         acaca=acaca*2
@@ -543,7 +546,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         for i in intranet[node]:
             for dummy,layer2 in net[i,i,layer,:]:
                 for j,dummy in net[i,:,layer2,layer2]:
-                    acacac+=int(anet[j,node])
+                    acacac+=num_links(j,node)
                     if net[j,node,layer]!=net.noEdge:
                         acacac+= -1
                     if net[j,node,layer2]!=net.noEdge:
@@ -578,7 +581,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         for layer in net.iter_layers():
             for i in net.A[layer][node]:
                 for j in net.A[layer][i]:
-                    aacac+=int(anet[j,node])
+                    aacac+=num_links(j,node)
                     if net[j,node,layer]!=net.noEdge:
                         aacac+= -1
 
@@ -589,7 +592,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         for layer in net.iter_layers():
             if net.A[layer][node].deg()>=2:
                 for i,j in itertools.combinations(net.A[layer][node],2):
-                    acaca+=int(anet[i,j])
+                    acaca+=num_links(i,j)
                     if net[i,j,layer]!=net.noEdge:
                         acaca+= -1            
         acaca=acaca*2
-- 
2.43.0


From 96e158ecb71ce2412346927030ab182d8dd590b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 68/77] fix: autoscale did not fit drawings of many layers into
 the figure

Limits of the axes which have been set are not changed by autoscale_view, so
all layers above z=2 were left outside of the axes' limits.
---
 pymnet/visuals/drawbackends/mpl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawbackends/mpl.py b/pymnet/visuals/drawbackends/mpl.py
index ff141d4..5bca589 100644
--- a/pymnet/visuals/drawbackends/mpl.py
+++ b/pymnet/visuals/drawbackends/mpl.py
@@ -69,7 +69,8 @@ class NetFigureMPL(drawnet.NetFigure):
         if self.camera_dist!=None:
             self.ax.dist=self.camera_dist
         if self.autoscale and len(self.layers)*self.layergap>3:
-            self.ax.autoscale_view()
+            #the limits given above are fixed, i.e., autoscale_view would not change them
+            self.ax.set_zlim3d(0,max(2,(len(self.layers)-1)*self.layergap))
         if self.show:
             plt.show()
 
-- 
2.43.0


From 8c786077f36ec7eaa2907ef3697f8800cb3540c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 69/77] fix: aggregate lost weights when a partial sum was
 equal to noEdge

With a missing-link value other than 0, links summing up to that value were
forgotten when there were still more links to add.
---
 pymnet/transforms.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 2d11111..a73fce8 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -81,13 +81,25 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
+    weights={}
     for edge in net.edges:
         newEdge=[]
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            oldWeight=newNet[tuple(newEdge)]
-            newNet[tuple(newEdge)]=edge[-1] if oldWeight==newNet.noEdge else oldWeight+edge[-1]
+            newEdge=tuple(newEdge)
+            if not newNet.directed and newEdge not in weights: #the same edge can be given in the other direction
+                reverseEdge=[]
+                for index in range(0,len(newEdge),2):
+                    reverseEdge.extend((newEdge[index+1],newEdge[index]))
+                if tuple(reverseEdge) in weights:
+                    newEdge=tuple(reverseEdge)
+            weights[newEdge]=weights[newEdge]+edge[-1] if newEdge in weights else edge[-1]
+
+    #The weights are set only after summing them, because a sum of a part of them can be equal to noEdge
+    for newEdge,weight in weights.items():
+        oldWeight=newNet[newEdge]
+        newNet[newEdge]=weight if oldWeight==newNet.noEdge else oldWeight+weight
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
-- 
2.43.0


From 57beca9543f422b752a31b70dc1024af0a81c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 70/77] fix: looking for a node in a network took time linear
 in the number of nodes

---
 pymnet/net.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4a67ace..133a304 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -172,6 +172,10 @@ class MultilayerNetwork(object):
     def __len__(self):
         return len(self.slices[0])
 
+    def __contains__(self,node):
+        #Without this method the nodes would be iterated over to find out if one of them is in the network
+        return node in self.slices[0]
+
     def __eq__(self,other):
         if not isinstance(other,MultilayerNetwork):
             return False
-- 
2.43.0


From cd0b14b284121e9639b5da27d15d2f4073453f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 71/77] fix: refused links and nodes were left partially in the
 network

---
 pymnet/net.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 133a304..b17504b 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -207,16 +207,21 @@ class MultilayerNetwork(object):
         if isinstance(layer,list): #Lists as layers allowed
             layer=tuple(layer)
 
+        if layer!=None and not self.fullyInterconnected: #check the layer before changing anything
+            hash((node,layer))
+            if layer.__class__==tuple: #two or more aspects
+                assert len(layer)==self.aspects and self.aspects>=2,layer
+            else: #single aspect
+                assert self.aspects==1
+
         self.slices[0].add(node)
         if layer!=None and not self.fullyInterconnected:
             #check that the layer exists, if not add it.
             if layer.__class__==tuple: #two or more aspects
-                assert self.aspects>=2,layer
                 for aspect_minus_one,elementary_layer in enumerate(layer):
                     if elementary_layer not in self.slices[aspect_minus_one+1]:
                         self.add_layer(elementary_layer,aspect_minus_one+1)
             else: #single aspect
-                assert self.aspects==1
                 if layer not in self.slices[1]:
                     self.add_layer(layer)
             self._add_node_to_layer(node,layer)
@@ -267,6 +272,11 @@ class MultilayerNetwork(object):
                 return self._net[node1][node2]
         return self.noEdge
 
+    def _check_link(self,link):
+        """Raises an error if the link cannot be set.
+        """
+        hash(link)
+
     def _set_link(self,link,value):
         #keep track of nodes and layers in net?
         node1,node2=self._link_to_nodes(link)
@@ -530,6 +540,8 @@ class MultilayerNetwork(object):
         else:
             raise KeyError("Invalid number of indices.")
 
+        self._check_link(link) #nothing is changed if the link is not valid
+
         #There might be new nodes, add them to sets of nodes
         if self.fullyInterconnected:
             for i in range(2):
@@ -1072,18 +1084,22 @@ class MultiplexNetwork(MultilayerNetwork):
         else:
             return self.noEdge
                 
-    def _set_link(self,link,value):
+    def _check_link(self,link):
         """Overrides parents method.
         """
+        MultilayerNetwork._check_link(self,link)
         d=self._get_edge_inter_aspects(link)
-        if len(d)==1 and d[0]==0:
-            S=link[2::2]
-            self._get_A_with_tuple(S)[link[0],link[1]]=value
-        elif len(d)==0:
+        if len(d)==0:
             raise KeyError("No self-links.")
-        else:
+        elif d!=[0]:
             raise KeyError("Can only set links in the node dimension.")
 
+    def _set_link(self,link,value):
+        """Overrides parents method.
+        """
+        S=link[2::2]
+        self._get_A_with_tuple(S)[link[0],link[1]]=value
+
 
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
-- 
2.43.0


From 7627dadb9e299dcb3334cdbd658f8a73bcb009d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 72/77] fix: overlay networks lost links between nodes whose
 names have no order

---
 pymnet/transforms.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index a73fce8..1597a0d 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -130,13 +130,15 @@ def overlay_network(net):
     newnet=netmodule.MultilayerNetwork(directed=net.directed)
     for node in net:
         newnet.add_node(node)
+    if net.directed:
+        pairs=lambda:itertools.product(net.slices[0],repeat=2)
+    else:
+        pairs=lambda:itertools.combinations(net.slices[0],2) #the names of the nodes do not need to have an order
     for layer in net.slices[1]:
-        for node1 in net.slices[0]:
-            for node2 in net.slices[0]:
-                if net.directed or node1>node2:
-                    weight=net[node1,node2,layer,layer]
-                    if weight!=net.noEdge: #the network may have another value for missing links
-                        newnet[node1,node2]=newnet[node1,node2]+weight
+        for node1,node2 in pairs():
+            weight=net[node1,node2,layer,layer]
+            if weight!=net.noEdge: #the network may have another value for missing links
+                newnet[node1,node2]=newnet[node1,node2]+weight
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From fcf12e36f34c8747f1b6d9dec066feab5c171d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:55 +0000
Subject: [PATCH 73/77] fix: shortest paths failed on networks whose names have
 no order

---
 pymnet/diagnostics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index b43e7cd..9365b53 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -153,11 +153,12 @@ def dijkstra(net,sources):
     d=dict([(s,0) for s in sources])
 
     queue=[]
+    order=itertools.count() #the names of nodes and layers are not compared when distances are equal
     for s in sources:
-        heapq.heappush(queue,(0,s,s)) #distance, source, dest
+        heapq.heappush(queue,(0,next(order),s,s)) #distance, order, source, dest
     
     while len(queue)>0:
-        dist,source,dest=heapq.heappop(queue)
+        dist,_,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             forest[source][dest]=net[source][dest]
@@ -165,7 +166,7 @@ def dijkstra(net,sources):
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
                     d[neigh]=ndist      
-                    heapq.heappush(queue,(ndist,dest,neigh))
+                    heapq.heappush(queue,(ndist,next(order),dest,neigh))
 
 
     return d,forest
-- 
2.43.0


From f9bd1df0ee21307f734dfe8ce9fc65b91a77b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:35 +0000
Subject: [PATCH 74/77] fix: Erdos-Renyi networks with link probabilities below
 1e-16 failed

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 9de17fe..c2f14c1 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -188,7 +188,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
             v,w=1,-1
             while (v < n):
                 r=random.random()
-                w=w+1+int(math.floor(math.log(1-r)/math.log(1-p)))
+                w=w+1+int(math.floor(math.log(1-r)/math.log1p(-p)))
                 while ((w >= v) and (v < n)):
                     w = w-v
                     v = v+1
-- 
2.43.0


From a31914a604e9db78ab69039b71d2ffd4db275daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:49 +0000
Subject: [PATCH 75/77] fix: configuration models failed when names of nodes
 have no order

---
 pymnet/models.py | 84 ++++++++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index c2f14c1..5ce9ed1 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -48,6 +48,7 @@ def single_layer_conf(net,degs,degstype="distribution"):
         nodes=sum(degs.values())
         shuffled_node_indices=list(range(nodes))
         random.shuffle(shuffled_node_indices)
+        order=dict((i,i) for i in shuffled_node_indices)
         node=0
         for k,num in degs.items():
             if k==0:
@@ -62,6 +63,7 @@ def single_layer_conf(net,degs,degstype="distribution"):
     elif degstype=="nodes":
         nstubs=sum(degs.values())
         nodes=len(degs)
+        order=dict((node,i) for i,node in enumerate(degs)) #the names of the nodes do not need to have an order
         #for node,k in degs.iteritems():
         for node in degs:
             k=degs[node]
@@ -79,7 +81,7 @@ def single_layer_conf(net,degs,degstype="distribution"):
     random.shuffle(stubs)
 
     for s in range(int(len(stubs)/2)):
-        node1,node2=sorted([stubs[2*s],stubs[2*s+1]])
+        node1,node2=sorted([stubs[2*s],stubs[2*s+1]],key=order.get)
 
         edgetoindex[(node1,node2)]=edgetoindex.get((node1,node2),[])+[2*s]
 
@@ -98,8 +100,8 @@ def single_layer_conf(net,degs,degstype="distribution"):
                 #select two edges at random
                 e1i,e2i=map(lambda x:2*x,random.sample(xrange(int(len(stubs)/2)),2))
                 c=[node,stubs[e1i],stubs[e1i+1],stubs[e2i],stubs[e2i+1]]
-                n2,n3=sorted([c[1],c[2]])
-                n4,n5=sorted([c[3],c[4]])
+                n2,n3=sorted([c[1],c[2]],key=order.get)
+                n4,n5=sorted([c[3],c[4]],key=order.get)
                 if len(set(c))==len(c):
                     if (n2,n3) not in multiedges and (n4,n5) not in multiedges:
                         if net[node,n2]==0 and net[node,n4]==0 and net[n3,n5]==0:                            
@@ -108,9 +110,9 @@ def single_layer_conf(net,degs,degstype="distribution"):
                             net[node,n2]=1
                             net[node,n4]=1
                             net[n3,n5]=1
-                            stubs[si],stubs[si+1]=sorted([n3,n5])
-                            stubs[e1i],stubs[e1i+1]=sorted([node,n2])
-                            stubs[e2i],stubs[e2i+1]=sorted([node,n4])
+                            stubs[si],stubs[si+1]=sorted([n3,n5],key=order.get)
+                            stubs[e1i],stubs[e1i+1]=sorted([node,n2],key=order.get)
+                            stubs[e2i],stubs[e2i+1]=sorted([node,n4],key=order.get)
                             repeat=False
 
     # Uncomment to check that everything ok so far:
@@ -128,8 +130,8 @@ def single_layer_conf(net,degs,degstype="distribution"):
                 #select two edges at random
                 e1i,e2i=map(lambda x:2*x,random.sample(xrange(int(len(stubs)/2)),2))
                 c=[n1,n2,stubs[e1i],stubs[e1i+1],stubs[e2i],stubs[e2i+1]]
-                n3,n4=sorted([c[2],c[3]])
-                n5,n6=sorted([c[4],c[5]])
+                n3,n4=sorted([c[2],c[3]],key=order.get)
+                n5,n6=sorted([c[4],c[5]],key=order.get)
                 if len(set(c))==len(c):
                     if (n3,n4) not in multiedges and (n5,n6) not in multiedges:
                         if net[n1,n3]==0 and net[n2,n4]==0 and net[n1,n5]==0 and net[n2,n6]==0:
@@ -144,10 +146,10 @@ def single_layer_conf(net,degs,degstype="distribution"):
                             net[n1,n5]=1
                             net[n2,n6]=1
                             si1,si2=sorted([edgetoindex[n1,n2].pop(),edgetoindex[n1,n2].pop()])
-                            stubs[si1],stubs[si1+1]=sorted([n1,n3])
-                            stubs[si2],stubs[si2+1]=sorted([n2,n4]) #stubs[si1],stubs[si1+1]=sorted([n2,n4])
-                            stubs[e1i],stubs[e1i+1]=sorted([n1,n5])
-                            stubs[e2i],stubs[e2i+1]=sorted([n2,n6])
+                            stubs[si1],stubs[si1+1]=sorted([n1,n3],key=order.get)
+                            stubs[si2],stubs[si2+1]=sorted([n2,n4],key=order.get) #stubs[si1],stubs[si1+1]=sorted([n2,n4],key=order.get)
+                            stubs[e1i],stubs[e1i+1]=sorted([n1,n5],key=order.get)
+                            stubs[e2i],stubs[e2i+1]=sorted([n2,n6],key=order.get)
                             repeat=False
 
 
@@ -564,6 +566,10 @@ def conf_overlaps(ol_degs, couplings=None):
     
     net = MultiplexNetwork(couplings=couplings)
     used_edges = set()
+    order = {} #the names of the nodes do not need to have an order
+    for degs in ol_degs.values():
+        for node in degs:
+            order.setdefault(node,len(order))
     
     for layer_comb in ol_degs:
         degs = ol_degs[layer_comb]
@@ -593,7 +599,7 @@ def conf_overlaps(ol_degs, couplings=None):
         random.shuffle(stubs)
         
         for s in range(int(len(stubs)/2)):
-            node1,node2=sorted([stubs[2*s],stubs[2*s+1]])
+            node1,node2=sorted([stubs[2*s],stubs[2*s+1]],key=order.get)
     
             edgetoindex[(node1,node2)]=edgetoindex.get((node1,node2),[])+[2*s]
     
@@ -614,22 +620,22 @@ def conf_overlaps(ol_degs, couplings=None):
                     #select two edges at random
                     e1i,e2i=map(lambda x:2*x,random.sample(xrange(int(len(stubs)/2)),2))
                     c=[node,stubs[e1i],stubs[e1i+1],stubs[e2i],stubs[e2i+1]]
-                    n2,n3=sorted([c[1],c[2]])
-                    n4,n5=sorted([c[3],c[4]])
+                    n2,n3=sorted([c[1],c[2]],key=order.get)
+                    n4,n5=sorted([c[3],c[4]],key=order.get)
                     if len(set(c))==len(c):
                         if (n2,n3) not in multiedges and (n4,n5) not in multiedges and (n2,n3) not in takenedges and (n4,n5) not in takenedges:
-                            e1 = tuple(sorted([node, n2]))
-                            e2 = tuple(sorted([node, n4]))
-                            e3 = tuple(sorted([n3, n5]))
+                            e1 = tuple(sorted([node, n2],key=order.get))
+                            e2 = tuple(sorted([node, n4],key=order.get))
+                            e3 = tuple(sorted([n3, n5],key=order.get))
                             if e1 not in used_edges and e2 not in used_edges and e3 not in used_edges:
                                 net_temp[n2,n3]=0
                                 net_temp[n4,n5]=0
                                 net_temp[node,n2]=1
                                 net_temp[node,n4]=1
                                 net_temp[n3,n5]=1
-                                stubs[si],stubs[si+1]=sorted([n3,n5])
-                                stubs[e1i],stubs[e1i+1]=sorted([node,n2])
-                                stubs[e2i],stubs[e2i+1]=sorted([node,n4])
+                                stubs[si],stubs[si+1]=sorted([n3,n5],key=order.get)
+                                stubs[e1i],stubs[e1i+1]=sorted([node,n2],key=order.get)
+                                stubs[e2i],stubs[e2i+1]=sorted([node,n4],key=order.get)
                                 repeat=False
                                 
                                 used_edges.remove((n2,n3))
@@ -645,14 +651,14 @@ def conf_overlaps(ol_degs, couplings=None):
                     #select two edges at random
                     e1i,e2i=map(lambda x:2*x,random.sample(xrange(int(len(stubs)/2)),2))
                     c=[n1,n2,stubs[e1i],stubs[e1i+1],stubs[e2i],stubs[e2i+1]]
-                    n3,n4=sorted([c[2],c[3]])
-                    n5,n6=sorted([c[4],c[5]])
+                    n3,n4=sorted([c[2],c[3]],key=order.get)
+                    n5,n6=sorted([c[4],c[5]],key=order.get)
                     if len(set(c))==len(c):
                         if (n3,n4) not in multiedges and (n5,n6) not in multiedges and (n3,n4) not in takenedges and (n5,n6) not in takenedges:
-                            e1 = tuple(sorted([n1,n3]))
-                            e2 = tuple(sorted([n2,n4]))
-                            e3 = tuple(sorted([n1,n5]))
-                            e4 = tuple(sorted([n2,n6]))
+                            e1 = tuple(sorted([n1,n3],key=order.get))
+                            e2 = tuple(sorted([n2,n4],key=order.get))
+                            e3 = tuple(sorted([n1,n5],key=order.get))
+                            e4 = tuple(sorted([n2,n6],key=order.get))
                             if e1 not in used_edges and e2 not in used_edges and e3 not in used_edges and e4 not in used_edges: #net[n1,n3]==0 and net[n2,n4]==0 and net[n1,n5]==0 and net[n2,n6]==0:
                                 if len(edgetoindex[n1,n2])==2:
                                     net_temp[n1,n2]=0
@@ -664,10 +670,10 @@ def conf_overlaps(ol_degs, couplings=None):
                                 net_temp[n1,n5]=1
                                 net_temp[n2,n6]=1
                                 si1,si2=sorted([edgetoindex[n1,n2].pop(),edgetoindex[n1,n2].pop()])
-                                stubs[si1],stubs[si1+1]=sorted([n1,n3])
-                                stubs[si2],stubs[si2+1]=sorted([n2,n4])#stubs[si1],stubs[si1+1]=sorted([n2,n4])
-                                stubs[e1i],stubs[e1i+1]=sorted([n1,n5])
-                                stubs[e2i],stubs[e2i+1]=sorted([n2,n6])
+                                stubs[si1],stubs[si1+1]=sorted([n1,n3],key=order.get)
+                                stubs[si2],stubs[si2+1]=sorted([n2,n4],key=order.get)#stubs[si1],stubs[si1+1]=sorted([n2,n4],key=order.get)
+                                stubs[e1i],stubs[e1i+1]=sorted([n1,n5],key=order.get)
+                                stubs[e2i],stubs[e2i+1]=sorted([n2,n6],key=order.get)
                                 repeat=False
                                 
                                 used_edges.remove((n3,n4))
@@ -684,13 +690,13 @@ def conf_overlaps(ol_degs, couplings=None):
                     #select two edges at random
                     e1i,e2i=map(lambda x:2*x,random.sample(xrange(int(len(stubs)/2)),2))
                     c=[n1,n2,stubs[e1i],stubs[e1i+1],stubs[e2i],stubs[e2i+1]]
-                    n3,n4=sorted([c[2],c[3]])
-                    n5,n6=sorted([c[4],c[5]])
+                    n3,n4=sorted([c[2],c[3]],key=order.get)
+                    n5,n6=sorted([c[4],c[5]],key=order.get)
                     if len(set(c))==len(c):
                         if (n3,n4) not in takenedges and (n5,n6) not in takenedges:
-                            e1 = tuple(sorted([n1,n3]))
-                            e2 = tuple(sorted([n2,n5]))
-                            e3 = tuple(sorted([n4,n6]))
+                            e1 = tuple(sorted([n1,n3],key=order.get))
+                            e2 = tuple(sorted([n2,n5],key=order.get))
+                            e3 = tuple(sorted([n4,n6],key=order.get))
                             if e1 not in used_edges and e2 not in used_edges and e3 not in used_edges:
                                 assert net_temp[n3,n4]==1
                                 assert net_temp[n5,n6]==1
@@ -700,9 +706,9 @@ def conf_overlaps(ol_degs, couplings=None):
                                 net_temp[n2,n5]=1
                                 net_temp[n4,n6]=1
                                 
-                                stubs[si1],stubs[si1+1]=sorted([n1,n3])
-                                stubs[e1i],stubs[e1i+1]=sorted([n2,n5])
-                                stubs[e2i],stubs[e2i+1]=sorted([n4,n6])
+                                stubs[si1],stubs[si1+1]=sorted([n1,n3],key=order.get)
+                                stubs[e1i],stubs[e1i+1]=sorted([n2,n5],key=order.get)
+                                stubs[e2i],stubs[e2i+1]=sorted([n4,n6],key=order.get)
                                 repeat=False
                                 
                                 used_edges.remove((n3,n4))
-- 
2.43.0


From a926faa4075addcc30c55f82d53f70def23e4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:40 +0000
Subject: [PATCH 76/77] fix: Dijkstra took a step for every shortest path, and
 did not end with links of weight zero in both directions

---
 pymnet/diagnostics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 9365b53..110b744 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -153,6 +153,7 @@ def dijkstra(net,sources):
     d=dict([(s,0) for s in sources])
 
     queue=[]
+    expanded=set()
     order=itertools.count() #the names of nodes and layers are not compared when distances are equal
     for s in sources:
         heapq.heappush(queue,(0,next(order),s,s)) #distance, order, source, dest
@@ -162,6 +163,9 @@ def dijkstra(net,sources):
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             forest[source][dest]=net[source][dest]
+            if dest in expanded: #another shortest path to the same node
+                continue
+            expanded.add(dest)
             for neigh in net[dest].iter_out():
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
-- 
2.43.0


From 03bdebcffe90495d575355d49ec345b7365c23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:40 +0000
Subject: [PATCH 77/77] fix: pruned Dijkstra forests failed with paths longer
 than the recursion limit

---
 pymnet/diagnostics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 110b744..000882c 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -208,10 +208,13 @@ def dijkstra_mlayer_prune(net,sources,aaspects):
 
 
     def build_path(otree,ntree,node):
-        for neigh in otree[node].iter_in():
-            ntree[neigh][node]=otree[neigh][node]
-            if ntree[neigh].deg_in()==0:
-                build_path(otree,ntree,neigh)
+        stack=[node] #paths can be longer than the recursion limit
+        while len(stack)>0:
+            node=stack.pop()
+            for neigh in otree[node].iter_in():
+                ntree[neigh][node]=otree[neigh][node]
+                if ntree[neigh].deg_in()==0:
+                    stack.append(neigh)
 
     nforest=MultilayerNetwork(aspects=net.aspects,
                              fullyInterconnected=False,
-- 
2.43.0

