From e5ae476ab0efe3e544ee9c6bed94fd41d5a0ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 01/16] fix: check the streets of both directions when a route
 is added

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..83885ff 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -297,7 +297,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From 852d7ccbadb5aec78a63c7427181a7b32385cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 02/16] fix: remove every route of a removed transport mode

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 83885ff..9614d3a 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,7 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From a40db30866ed21e3145dfd4bcb3418cd6f632325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 03/16] fix: reject custom routes whose stops are repeated or
 out of travel order

---
 sidermit/publictransportsystem/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 9614d3a..9d0b488 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -153,6 +153,10 @@ class Route:
         # to check if last stop is equal to last node in node sequences
         if nodes_list[len(nodes_list) - 1] != stops_list[len(stops_list) - 1]:
             raise LastStopIsNotValidException("last stop is not valid, must be equal to last node")
+        # to check if stops are in the order of node_sequences and are not repeated
+        remaining_nodes = iter(nodes_list)
+        if not all(stop in remaining_nodes for stop in stops_list):
+            raise StopsSequencesException("stops must be in the same order as nodes")
         return True
 
     @staticmethod
-- 
2.43.0


From 66707d36ea67c233ef0d70b4ed9c178becfe121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 04/16] fix: reject a zone whose periphery and subcenter share
 the same id

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..015ab0f 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -721,7 +721,8 @@ class Graph:
         """
 
         # to verified if id is not duplicated
-        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id:
+        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id or \
+                node_periphery.id == node_subcenter.id:
             raise NodeIdDuplicatedException('id_node is duplicated')
 
         self.__nodes.append(node_periphery)
-- 
2.43.0


From a73ef43aaac979400c3fb58129aaa0a5629b1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 05/16] fix: reject a city file without zones that has no CBD

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 015ab0f..9a08d10 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -629,6 +629,9 @@ class Graph:
             # if parameters are valid
             if graph_obj.parameters_validator(n, L, g, width, etha, etha_zone, angles, Gi, Hi):
 
+                if len(cbd) == 0:
+                    raise CBDDoesNotExistException("file must provide a CBD node")
+
                 for node in cbd:
                     graph_obj.__add_cbd(node)
 
-- 
2.43.0


From 2e2f390e6a133bb5baecda65b1ca5e2e826dc611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 06/16] fix: ride times include nodes on the way where no route
 stops

---
 .../optimization/preoptimization/extended_graph.py     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index a0108dd..bbc428e 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -154,7 +154,7 @@ class ExtendedGraph:
         # list with all alighting edges, edges between route_node->stop_node
         alighting_edges = self.build_alighting_edges(self.__extended_graph_nodes, TP)
         # list with all routes edges, edges between route_node(i-1)->route_node(i)
-        routes_edges = self.build_route_edges(self.__extended_graph_nodes)
+        routes_edges = self.build_route_edges(self.__extended_graph_nodes, city_nodes)
 
         self.__extended_graph_edges = []
 
@@ -479,18 +479,22 @@ class ExtendedGraph:
         return alighting_edges
 
     @staticmethod
-    def build_route_edges(extended_graph_nodes: defaultdict2_route_node) -> List[ExtendedEdge]:
+    def build_route_edges(extended_graph_nodes: defaultdict2_route_node, city_nodes: List[CityNode] = None) -> \
+            List[ExtendedEdge]:
         """
         to build extended routes edges
         :param extended_graph_nodes: dic[CityNode][StopNode] = List[RouteNode]
+        :param city_nodes: all city nodes, including those without stops. Default value is the city nodes with stops
         :return: List[ExtendedEdge]
         """
 
         route_nodes = []
         nodes = []
 
-        for city_node in extended_graph_nodes:
+        for city_node in (extended_graph_nodes if city_nodes is None else city_nodes):
             nodes.append(city_node.graph_node)
+
+        for city_node in extended_graph_nodes:
             for stop_node in extended_graph_nodes[city_node]:
                 for route_node in extended_graph_nodes[city_node][stop_node]:
                     route_nodes.append(route_node)
-- 
2.43.0


From ecc24e8f760d3436df53912b27fb85d0f27b2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:35 +0000
Subject: [PATCH 07/16] fix: assign everybody to the best stop when the
 indifference walk ends exactly at the last line

---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..885ca66 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -106,7 +106,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From ec1b25f1946c06b12a3020b41d383def77015075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:35 +0000
Subject: [PATCH 08/16] fix: count the access time of every passenger who
 changes mode

---
 sidermit/optimization/users_cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index ec63a73..e43b4dd 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -141,10 +141,10 @@ class UsersCost:
                         # reportar ta
                         if isinstance(nodei, StopNode):
                             if isinstance(nodej, CityNode):
-                                ta += nodei.mode.tat / 60
+                                ta += dis_pax * nodei.mode.tat / 60
                         if isinstance(nodej, StopNode):
                             if isinstance(nodei, CityNode):
-                                ta += nodej.mode.tat / 60
+                                ta += dis_pax * nodej.mode.tat / 60
 
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
-- 
2.43.0


From a81ecdd6863822ce8c2310990a98e9dee100f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 09/16] fix: take the travel direction of a passenger from the
 route node when adding stopped time

---
 sidermit/optimization/users_cost.py | 80 +++++------------------------
 1 file changed, 14 insertions(+), 66 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index e43b4dd..561e0c7 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -111,32 +111,9 @@ class UsersCost:
                                     t += dis_pax
 
                                 # para tiempo de viaje adicional por esperar la bajada del vehiculo
-                                nodei_id = nodei.prev_route_node.stop_node.city_node.graph_node.id
-                                nodej_id = nodei.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 tb = nodei.route.mode.t / 3600
-                                # verificamos si es del sentido de ida
-                                if index_i < index_j:
-                                    pax_b = v[nodei.route.id]["I"][nodej]
-                                    tv += (pax_b * 0.5 * tb) * dis_pax
-
-                                # sentido de vuelta
-                                else:
-                                    pax_b = v[nodei.route.id]["R"][nodej]
-                                    tv += (pax_b * 0.5 * tb) * dis_pax
+                                pax_b = v[nodei.route.id][nodei.direction][nodej]
+                                tv += (pax_b * 0.5 * tb) * dis_pax
 
                         # reportar ta
                         if isinstance(nodei, StopNode):
@@ -159,47 +136,18 @@ class UsersCost:
                                                                                                             RouteNode):
                                 bya = nodei.route.mode.bya
                                 tb = nodei.route.mode.t / 3600
-                                # determinamos dirección
-                                nodei_id = nodei.stop_node.city_node.graph_node.id
-                                nodej_id = nodej.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
-                                # verificamos si es del sentido de ida
-                                if index_i < index_j:
-                                    # simultaneo
-                                    if bya == 1:
-                                        pasajeros = max(z[nodei.route.id]["I"][nodej.stop_node],
-                                                        v[nodei.route.id]["I"][nodej.stop_node])
-                                        tv += pasajeros * tb * dis_pax
-                                    # secuencial
-                                    if bya == 0:
-                                        pasajeros = z[nodei.route.id]["I"][nodej.stop_node] + v[nodei.route.id]["I"][
-                                            nodej.stop_node]
-                                        tv += pasajeros * tb * dis_pax
-                                # sentido de vuelta
-                                else:
-                                    # simultaneo
-                                    if bya == 1:
-                                        pasajeros = max(z[nodei.route.id]["R"][nodej.stop_node],
-                                                        v[nodei.route.id]["R"][nodej.stop_node])
-                                        tv += pasajeros * tb * dis_pax
-                                    # secuencial
-                                    if bya == 0:
-                                        pasajeros = z[nodei.route.id]["R"][nodej.stop_node] + v[nodei.route.id]["R"][
-                                            nodej.stop_node]
-                                        tv += pasajeros * tb * dis_pax
+                                direction = nodei.direction
+
+                                # simultaneo
+                                if bya == 1:
+                                    pasajeros = max(z[nodei.route.id][direction][nodej.stop_node],
+                                                    v[nodei.route.id][direction][nodej.stop_node])
+                                    tv += pasajeros * tb * dis_pax
+                                # secuencial
+                                if bya == 0:
+                                    pasajeros = z[nodei.route.id][direction][nodej.stop_node] + \
+                                                v[nodei.route.id][direction][nodej.stop_node]
+                                    tv += pasajeros * tb * dis_pax
 
         return ta, te, tv, t
 
-- 
2.43.0


From b58d583cf33ca8ced040803b6eb0477f7c08d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 10/16] fix: validating a network does not add an empty origin
 to the extended graph

---
 sidermit/optimization/preoptimization/hyper_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 0a8d484..054ce07 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -59,7 +59,7 @@ class Hyperpath:
 
                     # if there is a stop with a label != infinity, you can get from the origin to the destination
                     conection = False
-                    for stop in nodes[origin]:
+                    for stop in nodes.get(origin, []):
                         if label[stop] != float('inf'):
                             conection = True
                             break
-- 
2.43.0


From 5f5205d8b5d70f805d5a9caaadf50a1f7cc85e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 11/16] fix: keep a line whose time equals the label, so that
 zero waiting does not divide by zero

---
 sidermit/optimization/preoptimization/hyper_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 054ce07..43faae8 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -206,7 +206,7 @@ class Hyperpath:
                     t_ib = min(labels[edge_b.nodej], labels_inf[edge_b.nodej]) + edge_b_t
 
                     # remove sub optimal edge in the successors list
-                    if t_ib >= labels[i]:
+                    if t_ib > labels[i]:
                         successor[i].remove(edge_b)
                         labels[i] = (frequencies[i] * labels[i] - edge_b.f * t_ib) / (frequencies[i] - edge_b.f)
                         frequencies[i] = frequencies[i] - edge_b.f
-- 
2.43.0


From 5480a43c18d56d234d59499da91d0b8982e144c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 12/16] fix: do not exceed the maximum number of internal
 optimizations

---
 sidermit/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..1a5403a 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -384,7 +384,7 @@ class Optimizer:
         # mientras criterio de tolerancia externo no se cumpla o se llegue al maximo numero de iteraciones
         while not opt_obj.external_optimization_tolerance(pre_f, new_f, tolerance):
             if number_of_iteration is not None:
-                if iteration > number_of_iteration:
+                if iteration >= number_of_iteration:
                     break
             pre_f = new_f
             dic_new_f = opt_obj.fopt_to_f(new_f)
-- 
2.43.0


From ba667ade13a7f46f848e1034023a4e5d15bac3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 13/16] fix: section loads of a line count stops where
 passengers only alight

---
 sidermit/optimization/optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 1a5403a..9c68512 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -610,9 +610,11 @@ class Optimizer:
                 else:
                     # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
                     total_pax = 0
+                    # paradas con subidas o solo con bajadas
+                    stops_i = list(dict.fromkeys(list(z[route.id]["I"]) + list(v[route.id]["I"])))
                     for node_id in nodes_sequence_i:
                         bool_add = False
-                        for stopnode in z[route.id]["I"]:
+                        for stopnode in stops_i:
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["I"][stopnode]
                                 pax_a = v[route.id]["I"][stopnode]
@@ -626,9 +628,11 @@ class Optimizer:
                             charge_i.append((node_id, total_pax / k[route.id]))
 
                     total_pax = 0
+                    # paradas con subidas o solo con bajadas
+                    stops_r = list(dict.fromkeys(list(z[route.id]["R"]) + list(v[route.id]["R"])))
                     for node_id in nodes_sequence_r:
                         bool_add = False
-                        for stopnode in z[route.id]["R"]:
+                        for stopnode in stops_r:
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["R"][stopnode]
                                 pax_a = v[route.id]["R"][stopnode]
-- 
2.43.0


From 9fbc1446030873683518627c5d3375f5cd876d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 14/16] fix: report an active line without passengers instead
 of dividing by zero

---
 sidermit/optimization/optimizer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 9c68512..b1ff2e0 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -608,6 +608,8 @@ class Optimizer:
                         cycle_time_line[route.id] * 60,
                         co, abs(charge_min), sub_table_i, sub_table_r))
                 else:
+                    # capacidad con la que se mide la carga, una linea sin pasajeros no tiene carga
+                    k_route = k[route.id] if k[route.id] > 0 else 1
                     # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
                     total_pax = 0
                     # paradas con subidas o solo con bajadas
@@ -621,11 +623,11 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_i.append((node_id, total_pax / k[route.id]))
+                                charge_i.append((node_id, total_pax / k_route))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
+                            charge_i.append((node_id, total_pax / k_route))
 
                     total_pax = 0
                     # paradas con subidas o solo con bajadas
@@ -639,14 +641,17 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_r.append((node_id, total_pax / k[route.id]))
+                                charge_r.append((node_id, total_pax / k_route))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
+                            charge_r.append((node_id, total_pax / k_route))
 
-                    co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                            total_b * f[route.id])
+                    if total_b == 0:
+                        co = 0
+                    else:
+                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
+                                total_b * f[route.id])
 
                     charge_min = float("inf")
                     sub_table_i = []
-- 
2.43.0


From ff25020d268dd3cb55ea504839503e263d0f9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 15/16] fix: section loads and boardings of circular lines
 follow the ring, also with empty sections

---
 sidermit/optimization/optimizer.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index b1ff2e0..cf23731 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -557,15 +557,17 @@ class Optimizer:
                         node_sequence = nodes_sequence_r
                         direction = "R"
                     load_i = []
-                    for i in node_sequence:
+                    for i in node_sequence[:-1]:
+                        load = 0
                         for stop_node in z[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
                                 total_b += z[route.id][direction][stop_node]
                                 break
                         for stop_node in loaded_section_route[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
+                                load = loaded_section_route[route.id][direction][stop_node]
                                 break
+                        load_i.append(load)
 
                     if total_b == 0:
                         co = 0
@@ -573,28 +575,16 @@ class Optimizer:
                         co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                                 total_b * f[route.id])
 
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
+                    # capacidad con la que se mide la carga, una linea sin pasajeros no tiene carga
+                    max_load = max(load_i) if max(load_i) > 0 else 1
+                    charge_min = min(load_i) / max_load
 
                     sub_table = []
                     sub_table_i = []
                     sub_table_r = []
 
-                    node_i = None
-                    charge_ij = None
-                    for i in range(len(node_sequence)):
-                        if i == 0:
-                            node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
-                            continue
-                        else:
-                            node_j = node_sequence[i]
-                            sub_table.append((node_i, node_j, abs(charge_ij)))
-                            node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
+                    for i in range(len(load_i)):
+                        sub_table.append((node_sequence[i], node_sequence[i + 1], abs(load_i[i] / max_load)))
 
                     # circular con sentido de ida
                     if len(nodes_sequence_i) > 0:
-- 
2.43.0


From 46ff6f583afa8252287aeb94f5c0575b54ec4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:29 +0000
Subject: [PATCH 16/16] fix: print the access time of a stop in the minutes its
 unit says

---
 sidermit/optimization/preoptimization/extended_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index bbc428e..24762d6 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -179,7 +179,7 @@ class ExtendedGraph:
                 # information about access edge
                 for edge in self.__extended_graph_edges:
                     if edge.nodei == city_node and edge.nodej == stop_node:
-                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t)
+                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t * 60)
 
                 line += "\t\tStop node\n\t\t-Mode name: {}\n".format(stop_node.mode.name)
 
-- 
2.43.0

