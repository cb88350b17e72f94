From 70f8f5bd5d03a79264ab25f8966c6b0a3102ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 01/66] fix: keep the aliases of the identifiables when a
 network is moved

---
 src/iidm/NetworkIndex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..a0b57da 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From e9b2dd5cde09332d0e2bc52ec39b274c99ee53a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 02/66] fix: refuse a variant clone before changing anything

---
 src/iidm/VariantManager.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..86d92a2 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -91,16 +91,27 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     std::lock_guard<std::mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
+
+    // check all the targets before changing anything, so that a refused clone has no side effect
+    if (!mayOverwrite) {
+        std::set<std::string> uniqueTargetVariantIds;
+        for (const auto& targetVariantId : targetVariantIds) {
+            if (m_variantsById.find(targetVariantId) != m_variantsById.end() || !uniqueTargetVariantIds.insert(targetVariantId).second) {
+                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+            }
+        }
+    }
+
     unsigned long initVariantArraySize = m_variantArraySize;
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
     for (const auto& targetVariantId : targetVariantIds) {
         if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
-                overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
-                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+            unsigned long index = m_variantsById[targetVariantId];
+            // a target which has just been created by this call does not have to be overwritten
+            if (index < initVariantArraySize && recycled.find(index) == recycled.end()) {
+                overwritten.emplace(index);
             }
         }
         else if (m_unusedIndexes.empty()) {
-- 
2.43.0


From 222f0a6ac6a96caad0c75dce444d8b7c28d21de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 03/66] fix: allow to iterate over the variants when no working
 variant is set

---
 include/powsybl/iidm/VariantContextGuard.hpp |  4 +++-
 src/iidm/VariantContextGuard.cpp             | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/powsybl/iidm/VariantContextGuard.hpp b/include/powsybl/iidm/VariantContextGuard.hpp
index e9ba3bf..4e44860 100644
--- a/include/powsybl/iidm/VariantContextGuard.hpp
+++ b/include/powsybl/iidm/VariantContextGuard.hpp
@@ -8,6 +8,8 @@
 #ifndef POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 #define POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 
+#include <powsybl/stdcxx/optional.hpp>
+
 namespace powsybl {
 
 namespace iidm {
@@ -30,7 +32,7 @@ public:
 private:
     VariantContext& m_context;
 
-    unsigned long m_variantIndex;
+    stdcxx::optional<unsigned long> m_variantIndex;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/VariantContextGuard.cpp b/src/iidm/VariantContextGuard.cpp
index 1734b2b..e1621f1 100644
--- a/src/iidm/VariantContextGuard.cpp
+++ b/src/iidm/VariantContextGuard.cpp
@@ -14,12 +14,18 @@ namespace powsybl {
 namespace iidm {
 
 VariantContextGuard::VariantContextGuard(VariantContext& context) :
-    m_context(context),
-    m_variantIndex(context.getVariantIndex()) {
+    m_context(context) {
+    if (context.isIndexSet()) {
+        m_variantIndex = context.getVariantIndex();
+    }
 }
 
 VariantContextGuard::~VariantContextGuard() noexcept {
-    m_context.setVariantIndex(m_variantIndex);
+    if (m_variantIndex) {
+        m_context.setVariantIndex(*m_variantIndex);
+    } else if (m_context.isIndexSet()) {
+        m_context.resetIfVariantIndexIs(m_context.getVariantIndex());
+    }
 }
 
 }  // namespace iidm
-- 
2.43.0


From caa8b93579698cb0a59dc6b402ab58ca704b4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 04/66] fix: do not dereference the removed variants when a
 network is moved

---
 include/powsybl/iidm/VariantArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/VariantArray.hxx b/include/powsybl/iidm/VariantArray.hxx
index b4a103a..c1f67ab 100644
--- a/include/powsybl/iidm/VariantArray.hxx
+++ b/include/powsybl/iidm/VariantArray.hxx
@@ -34,7 +34,8 @@ VariantArray<Owner, V, Dummy>::VariantArray(Owner& owner, VariantArray&& variant
     m_owner(owner) {
 
     for (auto& variant : variantArray.m_variants) {
-        m_variants.emplace_back(stdcxx::make_unique<V>(owner, std::move(*variant)));
+        // the variants which have been removed have no element in the array
+        m_variants.emplace_back(variant ? stdcxx::make_unique<V>(owner, std::move(*variant)) : std::unique_ptr<V>());
     }
 }
 
-- 
2.43.0


From db2599e092e944d61d8a7f14c65572ac6850259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 05/66] fix: report a working variant which does not exist
 anymore instead of dereferencing the end iterator

---
 src/iidm/VariantManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index 86d92a2..b4e30f5 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -203,6 +203,10 @@ const std::string& VariantManager::getWorkingVariantId() const {
         return entry.second == index;
     });
 
+    if (it == m_variantsById.end()) {
+        throw PowsyblException(stdcxx::format("No variant found for the working variant index %1%", index));
+    }
+
     return it->first;
 }
 
-- 
2.43.0


From 86569eb3bb354536e09e0274c3ceddfae0039f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 06/66] fix: handle the connectable bus of a terminal variant
 by variant

---
 src/iidm/BusBreakerVoltageLevel.cpp |  6 +++---
 src/iidm/BusTerminalViews.cpp       | 10 +++++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..328df18 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -109,10 +109,10 @@ void BusBreakerVoltageLevel::detach(Terminal& terminal) {
     assert(stdcxx::isInstanceOf<BusTerminal>(terminal));
 
     auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-    auto& bus = getConfiguredBus(busTerminal.getConnectableBusId(), true).get();
 
-    getNetwork().getVariantManager().forEachVariant([&bus, &busTerminal, this]() {
-        bus.removeTerminal(busTerminal);
+    getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+        // the connectable bus may be different in each variant
+        getConfiguredBus(busTerminal.getConnectableBusId(), true).get().removeTerminal(busTerminal);
         busTerminal.setConnectableBusId("");
 
         invalidateCache();
diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..98d27c9 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -48,11 +48,15 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
     auto& voltageLevel = dynamic_cast<BusBreakerVoltageLevel&>(m_terminal.getVoltageLevel());
 
     // Assert that the new bus exists
-    voltageLevel.getConfiguredBus(busId, true);
+    auto& newBus = voltageLevel.getConfiguredBus(busId, true).get();
+    auto& oldBus = voltageLevel.getConfiguredBus(m_terminal.getConnectableBusId(), true).get();
 
-    voltageLevel.detach(m_terminal);
+    // The connectable bus depends on the variant: only the working variant has to be changed
+    oldBus.removeTerminal(m_terminal);
     m_terminal.setConnectableBusId(busId);
-    voltageLevel.attach(m_terminal, false);
+    newBus.addTerminal(m_terminal);
+
+    voltageLevel.invalidateCache();
 }
 
 BusViewImpl::BusViewImpl(powsybl::iidm::BusTerminal& terminal):
-- 
2.43.0


From b126e639399e2a575b3922462bd9a04aa9ffdd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 07/66] fix: invalidate the computed views in all the variants
 when the structure of a voltage level is changed

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 15 +++++++++++++++
 src/iidm/BusBreakerVoltageLevel.hpp  |  2 ++
 src/iidm/NodeBreakerVoltageLevel.cpp | 17 +++++++++++++++--
 src/iidm/NodeBreakerVoltageLevel.hpp |  2 ++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 328df18..9988817 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -49,6 +49,8 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
 
+    invalidateCaches();
+
     return aSwitch;
 }
 
@@ -288,6 +290,13 @@ void BusBreakerVoltageLevel::invalidateCache() {
     getNetwork().getSynchronousComponentsManager().invalidate();
 }
 
+void BusBreakerVoltageLevel::invalidateCaches() {
+    // a change of the structure is common to all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+}
+
 void BusBreakerVoltageLevel::reduceVariantArraySize(unsigned long number) {
     VoltageLevel::reduceVariantArraySize(number);
     m_variants.reduceVariantArraySize(number);
@@ -309,9 +318,13 @@ void BusBreakerVoltageLevel::removeAllBuses() {
 
     m_graph.removeAllVertices();
     m_buses.clear();
+
+    invalidateCaches();
 }
 
 void BusBreakerVoltageLevel::removeAllSwitches() {
+    invalidateCaches();
+
     for (const auto& it : m_graph.getEdgeObjects()) {
         getNetwork().remove(it.get());
     }
@@ -351,6 +364,8 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    invalidateCaches();
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
diff --git a/src/iidm/BusBreakerVoltageLevel.hpp b/src/iidm/BusBreakerVoltageLevel.hpp
index 8049eba..e602ea3 100644
--- a/src/iidm/BusBreakerVoltageLevel.hpp
+++ b/src/iidm/BusBreakerVoltageLevel.hpp
@@ -114,6 +114,8 @@ private:
 
     stdcxx::optional<unsigned long> getVertex(const std::string& busId, bool throwException) const;
 
+    void invalidateCaches();
+
     void removeAllBuses();
 
     void removeAllSwitches();
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..7f8c8ef 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -34,7 +34,7 @@ void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigne
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
+    invalidateCaches();
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
@@ -44,6 +44,8 @@ Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch,
     unsigned long e = m_graph.addEdge(node1, node2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
 
+    invalidateCaches();
+
     return aSwitch;
 }
 
@@ -342,6 +344,13 @@ void NodeBreakerVoltageLevel::invalidateCache() {
     getNetwork().getSynchronousComponentsManager().invalidate();
 }
 
+void NodeBreakerVoltageLevel::invalidateCaches() {
+    // a change of the structure is common to all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+}
+
 bool NodeBreakerVoltageLevel::isConnected(const Terminal& terminal) const {
     const auto& nodeTerminal = dynamic_cast<const NodeTerminal&>(terminal);
 
@@ -366,7 +375,7 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
+    invalidateCaches();
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -375,6 +384,8 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    invalidateCaches();
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     clean();
 
@@ -383,6 +394,8 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
+    invalidateCaches();
+
     for (Switch& s : m_graph.getEdgeObjects()) {
         getNetwork().getIndex().remove(s);
     }
diff --git a/src/iidm/NodeBreakerVoltageLevel.hpp b/src/iidm/NodeBreakerVoltageLevel.hpp
index 78a121c..3164b31 100644
--- a/src/iidm/NodeBreakerVoltageLevel.hpp
+++ b/src/iidm/NodeBreakerVoltageLevel.hpp
@@ -126,6 +126,8 @@ private:
 
     stdcxx::Reference<Terminal> getTerminal(unsigned long node);
 
+    void invalidateCaches();
+
     void removeInternalConnections(unsigned long node1, unsigned long node2);
 
     void removeSwitch(const std::string& switchId);
-- 
2.43.0


From de486f84ea11100e8d57886b0185e35b42c80d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 08/66] fix: allow to remove a voltage level which has internal
 connections

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 7f8c8ef..822d4e9 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -396,8 +396,11 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 void NodeBreakerVoltageLevel::removeTopology() {
     invalidateCaches();
 
-    for (Switch& s : m_graph.getEdgeObjects()) {
-        getNetwork().getIndex().remove(s);
+    for (const auto& aSwitch : m_graph.getEdgeObjects()) {
+        // an internal connection is an edge without switch
+        if (aSwitch) {
+            getNetwork().getIndex().remove(aSwitch.get());
+        }
     }
     m_graph.removeAllEdges();
     m_switches.clear();
-- 
2.43.0


From adbc8d10d76bfc063c506c718cc940ee3d97ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 09/66] fix: size the visited buses by index, not by count,
 when buses are merged

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..4220310 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getVertexCapacity(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
-- 
2.43.0


From 05ddbd62899d81b063c0fbf170ed3481e5ec537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 10/66] fix: compare the node of a terminal to the capacity of
 the graph

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 822d4e9..dd62f42 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -132,7 +132,7 @@ void NodeBreakerVoltageLevel::detach(Terminal& terminal) {
     auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
 
     unsigned long node = nodeTerminal.getNode();
-    assert(node < m_graph.getVertexCount());
+    assert(node < m_graph.getVertexCapacity());
     assert(stdcxx::areSame(m_graph.getVertexObject(node).get(), nodeTerminal));
 
     getNetwork().getVariantManager().forEachVariant([this]() {
-- 
2.43.0


From 3b1d682131fbdff7efa1df81c20aef4f0546dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 11/66] fix: invalidate the right cache of the bus/breaker view
 of the network

---
 src/iidm/NetworkViews.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NetworkViews.cpp b/src/iidm/NetworkViews.cpp
index bc848bf..1634833 100644
--- a/src/iidm/NetworkViews.cpp
+++ b/src/iidm/NetworkViews.cpp
@@ -86,7 +86,7 @@ stdcxx::range<Switch> BusBreakerView::getSwitches() {
 }
 
 void BusBreakerView::invalidateCache() {
-    m_network.getBusViewCache().invalidate();
+    m_network.getBusBreakerViewCache().invalidate();
 }
 
 BusView::BusView(Network& network) :
-- 
2.43.0


From cd113fff332adfebedc12cb093467f02c1853a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 12/66] fix: allow to remove all the vertices when all the
 edges have been removed one by one

---
 include/powsybl/math/UndirectedGraph.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..84112c3 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -342,7 +342,7 @@ void UndirectedGraph<V, E>::removeAllEdges() {
 
 template <typename V, typename E>
 void UndirectedGraph<V, E>::removeAllVertices() {
-    if (!m_edges.empty()) {
+    if (getEdgeCount() > 0) {
         throw PowsyblException("Cannot remove all vertices because there is still some edges in the graph");
     }
 
-- 
2.43.0


From df0c2d58ef16168b5dc9655783d6767aafcaf611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 13/66] fix: make the edges between two vertices of a graph
 accessible

---
 include/powsybl/math/UndirectedGraph.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 84112c3..987066c 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -242,11 +242,11 @@ typename UndirectedGraph<V, E>::template const_range<E> UndirectedGraph<V, E>::g
     const std::vector<std::vector<unsigned long> >& adjacencyList = getAdjacencyList();
     const std::vector<unsigned long>& adjacentEdges = adjacencyList[v1];
 
-    const auto& edgeMapper = [this](const unsigned long& e) {
-        return m_edges[e].get();
+    const auto& edgeMapper = [this](const unsigned long& e) -> const Edge& {
+        return *m_edges[e];
     };
     const auto& edgeFilter = [v1, v2](const Edge& edge) {
-        return ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
+        return ((edge.getVertex1() == v1 && edge.getVertex2() == v2) || (edge.getVertex1() == v2 && edge.getVertex2() == v1));
     };
 
     return adjacentEdges |
-- 
2.43.0


From e6429b06f4bf852a41f965ebaa556b5ea44016e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 14/66] fix: refuse to remove a bus which has equipments in
 another variant

---
 src/iidm/BusBreakerVoltageLevel.cpp | 13 +++++++++++--
 src/iidm/BusBreakerVoltageLevel.hpp |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 9988817..fc914dc 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -282,6 +282,15 @@ stdcxx::optional<unsigned long> BusBreakerVoltageLevel::getVertex(const std::str
     throw PowsyblException(stdcxx::format("Bus '%1%' not found in the voltage level '%2%'", busId, getId()));
 }
 
+bool BusBreakerVoltageLevel::hasTerminals(const ConfiguredBus& bus) {
+    // the connectable bus of a terminal may be different in each variant
+    bool res = false;
+    getNetwork().getVariantManager().forEachVariant([&bus, &res]() {
+        res = res || bus.getTerminalCount() > 0;
+    });
+    return res;
+}
+
 void BusBreakerVoltageLevel::invalidateCache() {
     m_variants.get().getCalculatedBusTopology().invalidateCache();
     getNetwork().getBusView().invalidateCache();
@@ -308,7 +317,7 @@ void BusBreakerVoltageLevel::removeAllBuses() {
     }
     for (const auto& it : m_graph.getVertexObjects()) {
         const auto& bus = it.get();
-        if (bus.getTerminalCount() > 0) {
+        if (hasTerminals(bus)) {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
@@ -335,7 +344,7 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& bus = getConfiguredBus(busId, true);
-    if (bus.get().getTerminalCount() > 0) {
+    if (hasTerminals(bus.get())) {
         throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
     }
 
diff --git a/src/iidm/BusBreakerVoltageLevel.hpp b/src/iidm/BusBreakerVoltageLevel.hpp
index e602ea3..3a441f2 100644
--- a/src/iidm/BusBreakerVoltageLevel.hpp
+++ b/src/iidm/BusBreakerVoltageLevel.hpp
@@ -114,6 +114,8 @@ private:
 
     stdcxx::optional<unsigned long> getVertex(const std::string& busId, bool throwException) const;
 
+    bool hasTerminals(const ConfiguredBus& bus);
+
     void invalidateCaches();
 
     void removeAllBuses();
-- 
2.43.0


From 9745c31a6ff451e33fe0e7f7e58410cf736ff56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 15/66] fix: do not iterate over the lists which are changed by
 the removal of voltage levels and substations

---
 src/iidm/Substation.cpp   | 11 +++++++++--
 src/iidm/VoltageLevel.cpp |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index f0d550c..f94fd5a 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -130,9 +130,16 @@ VoltageLevelAdder Substation::newVoltageLevel() {
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
-    for (VoltageLevel& vl : m_voltageLevels) {
-        // Remove all branches, transformers and HVDC lines
+    // The lists are copied because they are changed when the voltage levels and the connectables are removed
+    const std::vector<std::reference_wrapper<VoltageLevel>> voltageLevels = m_voltageLevels;
+    for (VoltageLevel& vl : voltageLevels) {
+        std::vector<std::reference_wrapper<Connectable>> connectables;
         for (Connectable& connectable : vl.getConnectables()) {
+            connectables.emplace_back(connectable);
+        }
+
+        // Remove all branches, transformers and HVDC lines
+        for (Connectable& connectable : connectables) {
             ConnectableType type = connectable.getType();
             if (VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.find(type) != VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.end()) {
                 connectable.remove();
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 312a6ba..282d389 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -237,8 +237,12 @@ VscConverterStationAdder VoltageLevel::newVscConverterStation() {
 void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
-    // Remove all connectables
+    // Remove all connectables (the range is copied because removing a connectable changes the underlying topology)
+    std::vector<std::reference_wrapper<Connectable>> connectables;
     for (Connectable& connectable : getConnectables()) {
+        connectables.emplace_back(connectable);
+    }
+    for (Connectable& connectable : connectables) {
         connectable.remove();
     }
 
-- 
2.43.0


From cfd3ca19d1ffb6cd5c78c105ef430feee49e8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 16/66] fix: check that an equipment is attachable before
 adding it to the network

---
 include/powsybl/iidm/Connectable.hpp       |  5 +++++
 src/iidm/BatteryAdder.cpp                  |  9 ++++++---
 src/iidm/Connectable.cpp                   | 23 ++++++++++++++++++++++
 src/iidm/DanglingLineAdder.cpp             |  8 ++++++--
 src/iidm/GeneratorAdder.cpp                |  8 ++++++--
 src/iidm/LccConverterStationAdder.cpp      |  8 ++++++--
 src/iidm/LineAdder.cpp                     | 14 ++++++-------
 src/iidm/LoadAdder.cpp                     |  8 ++++++--
 src/iidm/NodeBreakerVoltageLevel.cpp       | 18 ++++++++++-------
 src/iidm/ShuntCompensatorAdder.cpp         |  8 ++++++--
 src/iidm/StaticVarCompensatorAdder.cpp     |  8 ++++++--
 src/iidm/ThreeWindingsTransformerAdder.cpp | 17 ++++++++--------
 src/iidm/TieLineAdder.cpp                  | 14 ++++++-------
 src/iidm/TwoWindingsTransformerAdder.cpp   | 14 ++++++-------
 src/iidm/VscConverterStationAdder.cpp      |  8 ++++++--
 15 files changed, 116 insertions(+), 54 deletions(-)

diff --git a/include/powsybl/iidm/Connectable.hpp b/include/powsybl/iidm/Connectable.hpp
index ea868c5..bb8eed0 100644
--- a/include/powsybl/iidm/Connectable.hpp
+++ b/include/powsybl/iidm/Connectable.hpp
@@ -32,6 +32,11 @@ public:
 
     Terminal& addTerminal(std::unique_ptr<Terminal>&& terminal);
 
+    /**
+     * Check that all the terminals of this equipment can be attached to their voltage level, without changing anything
+     */
+    void checkAttachable();
+
     const ConnectableType& getType() const;
 
     std::vector<std::reference_wrapper<Terminal> > getTerminals() const;
diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..2030da5 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -13,7 +13,6 @@
 #include <powsybl/stdcxx/make_unique.hpp>
 #include <powsybl/stdcxx/math.hpp>
 
-
 namespace powsybl {
 
 namespace iidm {
@@ -30,9 +29,13 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
-    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
 
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrBattery->addTerminal(checkAndGetTerminal());
+
+    // check that the equipment is attachable before changing the network
+    ptrBattery->checkAttachable();
+
+    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
     getVoltageLevel().attach(terminal, false);
 
     return battery;
diff --git a/src/iidm/Connectable.cpp b/src/iidm/Connectable.cpp
index 4507a25..bd6452a 100644
--- a/src/iidm/Connectable.cpp
+++ b/src/iidm/Connectable.cpp
@@ -7,8 +7,14 @@
 
 #include <powsybl/iidm/Connectable.hpp>
 
+#include <set>
+#include <utility>
+
 #include <powsybl/iidm/Network.hpp>
+#include <powsybl/iidm/TopologyKind.hpp>
+#include <powsybl/iidm/ValidationException.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
+#include <powsybl/stdcxx/format.hpp>
 
 namespace powsybl {
 
@@ -34,6 +40,23 @@ Terminal& Connectable::addTerminal(std::unique_ptr<Terminal>&& terminal) {
     return *m_terminals.back();
 }
 
+void Connectable::checkAttachable() {
+    std::set<std::pair<const VoltageLevel*, unsigned long>> nodes;
+    for (const auto& terminal : m_terminals) {
+        VoltageLevel& voltageLevel = terminal->getVoltageLevel();
+        voltageLevel.attach(*terminal, true);
+
+        // two terminals of the same equipment cannot share a node
+        if (voltageLevel.getTopologyKind() == TopologyKind::NODE_BREAKER) {
+            unsigned long node = terminal->getNodeBreakerView().getNode();
+            if (!nodes.emplace(&voltageLevel, node).second) {
+                throw ValidationException(*this, stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                                                                getId(), node, voltageLevel.getId()));
+            }
+        }
+    }
+}
+
 void Connectable::deleteVariantArrayElement(unsigned long index) {
     Identifiable::deleteVariantArrayElement(index);
 
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..0c4010d 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,9 +34,13 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
-    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
 
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrDanglingLine->addTerminal(checkAndGetTerminal());
+
+    // check that the equipment is attachable before changing the network
+    ptrDanglingLine->checkAttachable();
+
+    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
     getVoltageLevel().attach(terminal, false);
 
     return danglingLine;
diff --git a/src/iidm/GeneratorAdder.cpp b/src/iidm/GeneratorAdder.cpp
index 877c6b5..892699d 100644
--- a/src/iidm/GeneratorAdder.cpp
+++ b/src/iidm/GeneratorAdder.cpp
@@ -37,9 +37,13 @@ Generator& GeneratorAdder::add() {
     std::unique_ptr<Generator> ptrGenerator = stdcxx::make_unique<Generator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
         m_energySource, m_minP, m_maxP, *m_voltageRegulatorOn, regulatingTerminal,
         m_activePowerSetpoint, m_reactivePowerSetpoint, m_voltageSetpoint, m_ratedS);
-    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
 
-    Terminal& terminal = generator.addTerminal(std::move(terminalPtr));
+    Terminal& terminal = ptrGenerator->addTerminal(std::move(terminalPtr));
+
+    // check that the equipment is attachable before changing the network
+    ptrGenerator->checkAttachable();
+
+    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
     getVoltageLevel().attach(terminal, false);
 
     return generator;
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..2a38c44 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,9 +24,13 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
-    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
 
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrLcc->addTerminal(checkAndGetTerminal());
+
+    // check that the equipment is attachable before changing the network
+    ptrLcc->checkAttachable();
+
+    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
     getVoltageLevel().attach(terminal, false);
 
     return lcc;
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..098f3c8 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -37,15 +37,15 @@ Line& LineAdder::add() {
     checkR(*this, m_r);
     checkX(*this, m_x);
 
-    // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
-    auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
 
-    Terminal& terminal1 = line.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = line.addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal1 = ptrLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrLine->addTerminal(std::move(ptrTerminal2));
+
+    // check that the equipment is attachable before changing the network
+    ptrLine->checkAttachable();
+
+    auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..c16b4a6 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,9 +27,13 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
-    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
 
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrLoad->addTerminal(checkAndGetTerminal());
+
+    // check that the equipment is attachable before changing the network
+    ptrLoad->checkAttachable();
+
+    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
     getVoltageLevel().attach(terminal, false);
 
     return load;
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index dd62f42..a384784 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -61,13 +61,6 @@ void NodeBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
         unsigned long node = nodeTerminal.getNode();
         m_graph.addVertexIfNotPresent(node);
 
-        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
-        if (static_cast<bool>(tmp)) {
-            throw ValidationException(terminal.getConnectable(),
-                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
-                                tmp.get().getConnectable().get().getId(), node, getId()));
-        }
-
         // create the link terminal <-> graph vertex
         m_graph.setVertexObject(node, stdcxx::ref(nodeTerminal));
 
@@ -83,6 +76,17 @@ void NodeBreakerVoltageLevel::checkTerminal(Terminal& terminal) const {
             stdcxx::format("Voltage level %1% has a node/breaker topology, a node connection should be specified instead of a bus connection",
                             getId()));
     }
+
+    // check that the node is free
+    unsigned long node = dynamic_cast<NodeTerminal&>(terminal).getNode();
+    if (m_graph.vertexExists(node)) {
+        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
+        if (static_cast<bool>(tmp)) {
+            throw ValidationException(terminal.getConnectable(),
+                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                                tmp.get().getConnectable().get().getId(), node, getId()));
+        }
+    }
 }
 
 void NodeBreakerVoltageLevel::clean() {
diff --git a/src/iidm/ShuntCompensatorAdder.cpp b/src/iidm/ShuntCompensatorAdder.cpp
index 99cd059..9ae44ef 100644
--- a/src/iidm/ShuntCompensatorAdder.cpp
+++ b/src/iidm/ShuntCompensatorAdder.cpp
@@ -34,9 +34,13 @@ ShuntCompensator& ShuntCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<ShuntCompensator> ptrShunt = stdcxx::make_unique<ShuntCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_modelBuilder->build(),
                                                                                        *m_sectionCount, regulatingTerminal, m_voltageRegulatorOn, m_targetV, m_targetDeadband);
-    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
 
-    Terminal& terminal = shunt.addTerminal(std::move(ptrTerminal));
+    Terminal& terminal = ptrShunt->addTerminal(std::move(ptrTerminal));
+
+    // check that the equipment is attachable before changing the network
+    ptrShunt->checkAttachable();
+
+    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
     getVoltageLevel().attach(terminal, false);
 
     return shunt;
diff --git a/src/iidm/StaticVarCompensatorAdder.cpp b/src/iidm/StaticVarCompensatorAdder.cpp
index 751e139..540a9b9 100644
--- a/src/iidm/StaticVarCompensatorAdder.cpp
+++ b/src/iidm/StaticVarCompensatorAdder.cpp
@@ -31,9 +31,13 @@ StaticVarCompensator& StaticVarCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<StaticVarCompensator> ptrSvc = stdcxx::make_unique<StaticVarCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_bMin, m_bMax, m_voltageSetpoint,
         m_reactivePowerSetpoint, *m_regulationMode, regulatingTerminal);
-    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
 
-    Terminal& terminal = svc.addTerminal(std::move(ptrTerminal));
+    Terminal& terminal = ptrSvc->addTerminal(std::move(ptrTerminal));
+
+    // check that the equipment is attachable before changing the network
+    ptrSvc->checkAttachable();
+
+    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
     getVoltageLevel().attach(terminal, false);
 
     return svc;
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..d4100b6 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -45,11 +45,6 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     VoltageLevel& voltageLevel3 = m_adder3->checkAndGetVoltageLevel();
     std::unique_ptr<Terminal> ptrTerminal3 = m_adder3->checkAndGetTerminal(voltageLevel3);
 
-    // check that the 3 windings transformer is attachable on the 3 sides
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-    voltageLevel3.attach(*ptrTerminal3, true);
-
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
         m_ratedU0 = leg1.getRatedU();
@@ -57,11 +52,15 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     }
 
     std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), m_ratedU0);
-    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
-    Terminal& terminal3 = transformer.addTerminal(std::move(ptrTerminal3));
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal3 = ptrTransformer->addTerminal(std::move(ptrTerminal3));
+
+    // check that the equipment is attachable before changing the network
+    ptrTransformer->checkAttachable();
+
+    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
 
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..27f1961 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -39,15 +39,15 @@ TieLine& TieLineAdder::add() {
     TieLine::HalfLine half1 = m_halfLineAdder1->build();
     TieLine::HalfLine half2 = m_halfLineAdder2->build();
 
-    // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
-    auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
 
-    Terminal& terminal1 = tieLine.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = tieLine.addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal1 = ptrTieLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTieLine->addTerminal(std::move(ptrTerminal2));
+
+    // check that the equipment is attachable before changing the network
+    ptrTieLine->checkAttachable();
+
+    auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..1bbcd13 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -40,15 +40,15 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     checkRatedU2(*this, m_ratedU2);
     checkRatedS(*this, m_ratedS);
 
-    // check that the two windings transformer is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
-    auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+
+    // check that the equipment is attachable before changing the network
+    ptrTransformer->checkAttachable();
+
+    auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..8417f54 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,9 +24,13 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
-    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
 
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrVsc->addTerminal(checkAndGetTerminal());
+
+    // check that the equipment is attachable before changing the network
+    ptrVsc->checkAttachable();
+
+    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
     getVoltageLevel().attach(terminal, false);
 
     return vsc;
-- 
2.43.0


From 7cddd7c0787eb84e274f5c41736212559fbfe785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 17/66] fix: attach the converter stations once the HVDC line
 has been accepted, and to one line only

---
 include/powsybl/iidm/HvdcLine.hpp |  4 +++-
 src/iidm/HvdcLine.cpp             | 10 +++++-----
 src/iidm/HvdcLineAdder.cpp        | 13 +++++++++++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/powsybl/iidm/HvdcLine.hpp b/include/powsybl/iidm/HvdcLine.hpp
index 7a27aee..f1aee85 100644
--- a/include/powsybl/iidm/HvdcLine.hpp
+++ b/include/powsybl/iidm/HvdcLine.hpp
@@ -89,7 +89,9 @@ private: // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    HvdcConverterStation& attach(HvdcConverterStation& converterStation);
+    void attachConverterStations();
+
+    friend class HvdcLineAdder;
 
 private:
     stdcxx::Reference<HvdcConverterStation> m_converterStation1;
diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index 1c0e66b..e7ccb10 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -18,8 +18,8 @@ namespace iidm {
 HvdcLine::HvdcLine(Network& network, const std::string& id, const std::string& name, bool fictitious, double r, double nominalV, double maxP,
                    const ConvertersMode& convertersMode, double activePowerSetpoint, HvdcConverterStation& converterStation1, HvdcConverterStation& converterStation2) :
     Identifiable(id, name, fictitious),
-    m_converterStation1(attach(converterStation1)),
-    m_converterStation2(attach(converterStation2)),
+    m_converterStation1(converterStation1),
+    m_converterStation2(converterStation2),
     m_r(checkR(*this, r)),
     m_nominalV(checkNominalVoltage(*this, nominalV)),
     m_maxP(checkHvdcMaxP(*this, maxP)),
@@ -36,9 +36,9 @@ void HvdcLine::allocateVariantArrayElement(const std::set<unsigned long>& indexe
     }
 }
 
-HvdcConverterStation& HvdcLine::attach(HvdcConverterStation& converterStation) {
-    converterStation.setHvdcLine(stdcxx::ref(*this));
-    return converterStation;
+void HvdcLine::attachConverterStations() {
+    m_converterStation1.get().setHvdcLine(stdcxx::ref(*this));
+    m_converterStation2.get().setHvdcLine(stdcxx::ref(*this));
 }
 
 void HvdcLine::extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) {
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index c24ca9c..779b61e 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -7,12 +7,15 @@
 
 #include <powsybl/iidm/HvdcLineAdder.hpp>
 
+#include <functional>
+
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/HvdcLine.hpp>
 #include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/stdcxx/make_unique.hpp>
 #include <powsybl/stdcxx/math.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -33,9 +36,19 @@ HvdcLine& HvdcLineAdder::add() {
     HvdcConverterStation& converterStation1 = getConverterStation(m_converterStationId1, 1U);
     HvdcConverterStation& converterStation2 = getConverterStation(m_converterStationId2, 2U);
 
+    for (const HvdcConverterStation& station : {std::cref(converterStation1), std::cref(converterStation2)}) {
+        if (station.getHvdcLine()) {
+            throw ValidationException(*this, stdcxx::format("Converter station '%1%' is already attached to '%2%'", station.getId(), station.getHvdcLine().get().getId()));
+        }
+    }
+    if (stdcxx::areSame(converterStation1, converterStation2)) {
+        throw ValidationException(*this, stdcxx::format("Converter station '%1%' cannot be used on both sides", converterStation1.getId()));
+    }
+
     std::unique_ptr<HvdcLine> ptrHvdcLine = stdcxx::make_unique<HvdcLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_nominalV, m_maxP, *m_convertersMode, m_activePowerSetpoint,
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
+    line.attachConverterStations();
 
     return line;
 }
-- 
2.43.0


From b530bff189458e4113ecf9c2225446761dc8a20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 18/66] fix: invalidate the connected components when an HVDC
 line is created or removed

---
 src/iidm/HvdcLine.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index e7ccb10..d09b88f 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/HvdcLine.hpp>
 
+#include <powsybl/iidm/ConnectedComponentsManager.hpp>
 #include <powsybl/iidm/Enum.hpp>
 #include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
@@ -39,6 +40,11 @@ void HvdcLine::allocateVariantArrayElement(const std::set<unsigned long>& indexe
 void HvdcLine::attachConverterStations() {
     m_converterStation1.get().setHvdcLine(stdcxx::ref(*this));
     m_converterStation2.get().setHvdcLine(stdcxx::ref(*this));
+
+    // the connected components have changed in all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        getNetwork().getConnectedComponentsManager().invalidate();
+    });
 }
 
 void HvdcLine::extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) {
@@ -123,6 +129,11 @@ void HvdcLine::reduceVariantArraySize(unsigned long number) {
 void HvdcLine::remove() {
     Network& network = getNetwork();
 
+    // the connected components are going to change in all the variants
+    network.getVariantManager().forEachVariant([&network]() {
+        network.getConnectedComponentsManager().invalidate();
+    });
+
     // Detach converter stations
     m_converterStation1.get().setHvdcLine(stdcxx::ref<HvdcLine>());
     m_converterStation2.get().setHvdcLine(stdcxx::ref<HvdcLine>());
-- 
2.43.0


From f3c06fb8084ab1d30ed115c4cb7670e4e6026aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 19/66] fix: shift the tap position of all the variants with
 the low tap position

---
 include/powsybl/iidm/TapChanger.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..c7a8858 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -167,7 +167,10 @@ template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    // the low tap position is common to all the variants
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += m_lowTapPosition - oldValue;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From 8dd43e38dfdeb516d75ae31ff12cc52691abbab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 20/66] fix: allow only one regulating tap changer in every
 variant, whatever the way to enable it

---
 include/powsybl/iidm/TapChanger.hxx       | 2 ++
 include/powsybl/iidm/TapChangerHolder.hpp | 6 ++++++
 src/iidm/PhaseTapChangerAdder.cpp         | 9 ++++++---
 src/iidm/RatioTapChangerAdder.cpp         | 9 ++++++---
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index c7a8858..55bc757 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -19,6 +19,7 @@ namespace powsybl {
 
 namespace iidm {
 
+void checkOnlyOneTapChangerRegulatingEnabled(const Validable& validable, unsigned long regulatingTapChangerCount, bool regulating);
 long checkTapPosition(const Validable& validable, long tapPosition, long lowTapPosition, long highTapPosition);
 double checkTargetDeadband(const Validable& validable, const std::string& validableType, bool regulating, double targetDeadband);
 
@@ -178,6 +179,7 @@ C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
 template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setRegulating(bool regulating) {
     checkTargetDeadband(m_parent, m_type, regulating, m_targetDeadband[getNetwork().getVariantIndex()]);
+    checkOnlyOneTapChangerRegulatingEnabled(m_parent, m_parent.getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     m_regulating[getNetwork().getVariantIndex()] = regulating;
 
     return static_cast<C&>(*this);
diff --git a/include/powsybl/iidm/TapChangerHolder.hpp b/include/powsybl/iidm/TapChangerHolder.hpp
index bb1d534..5fde53d 100644
--- a/include/powsybl/iidm/TapChangerHolder.hpp
+++ b/include/powsybl/iidm/TapChangerHolder.hpp
@@ -17,6 +17,9 @@ namespace iidm {
 class Identifiable;
 class Network;
 
+template<typename H, typename C, typename S>
+class TapChanger;
+
 class TapChangerHolder : public virtual Validable {
 public:
     ~TapChangerHolder() noexcept override = default;
@@ -39,6 +42,9 @@ private:
     friend class PhaseTapChangerAdder;
 
     friend class RatioTapChangerAdder;
+
+    template<typename H, typename C, typename S>
+    friend class TapChanger;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/PhaseTapChangerAdder.cpp b/src/iidm/PhaseTapChangerAdder.cpp
index 955fb2f..f6383fd 100644
--- a/src/iidm/PhaseTapChangerAdder.cpp
+++ b/src/iidm/PhaseTapChangerAdder.cpp
@@ -83,9 +83,12 @@ PhaseTapChanger& PhaseTapChangerAdder::add() {
     std::unique_ptr<PhaseTapChanger> ptrPhaseTapChanger = stdcxx::make_unique<PhaseTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                *m_tapPosition, m_regulating, m_regulationMode, m_regulationValue, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    // the new tap changer regulates in all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasRatioTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
diff --git a/src/iidm/RatioTapChangerAdder.cpp b/src/iidm/RatioTapChangerAdder.cpp
index d07216b..5d75247 100644
--- a/src/iidm/RatioTapChangerAdder.cpp
+++ b/src/iidm/RatioTapChangerAdder.cpp
@@ -78,9 +78,12 @@ RatioTapChanger& RatioTapChangerAdder::add() {
     std::unique_ptr<RatioTapChanger> ptrRatioTapChanger = stdcxx::make_unique<RatioTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                m_loadTapChangingCapabilities, *m_tapPosition, m_regulating, m_targetV, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    // the new tap changer regulates in all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasPhaseTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
-- 
2.43.0


From 6e36fbbde959a6dee9721a2924a18cf2a75b5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 21/66] fix: only warn when a ratio tap changer without load
 tap changing capabilities has no regulation terminal

---
 src/iidm/ValidationUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..105d817 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -331,7 +331,7 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
         }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        if (regulationTerminal && !stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
         }
     }
-- 
2.43.0


From 896edc79c01478dffcc7a9a7023db1642f767e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 22/66] fix: check the regulation of a tap changer with its new
 settings and in all the variants

---
 include/powsybl/iidm/PhaseTapChanger.hpp |  2 ++
 src/iidm/PhaseTapChanger.cpp             | 15 +++++++++++++--
 src/iidm/RatioTapChanger.cpp             | 10 ++++++++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..3878a3f 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -35,6 +35,8 @@ public: // MultiVariantObject
 public: // TapChanger
     void remove() override;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) override;
 
 public:
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..8ef1e31 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -57,14 +57,25 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
-    checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    // the regulation mode is common to all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationMode]() {
+        checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    });
     m_regulationMode = regulationMode;
     return *this;
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    // the regulation terminal is common to all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..7eebb4d 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -56,7 +56,10 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    // the load tap changing capabilities are common to all the variants
+    getNetwork().getVariantManager().forEachVariant([this, loadTapChangingCapabilities]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    });
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
@@ -67,7 +70,10 @@ RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
 }
 
 RatioTapChanger& RatioTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    // the regulation terminal is common to all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
-- 
2.43.0


From 1117221e1f0b5d9bcfd27d69e78e610119b00578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 23/66] fix: forget the terminals of a removed equipment
 wherever they are referenced

---
 .../extensions/iidm/RemoteReactivePowerControl.hpp  |  2 ++
 extensions/iidm/src/RemoteReactivePowerControl.cpp  |  4 ++++
 include/powsybl/iidm/Extendable.hpp                 |  8 ++++++++
 include/powsybl/iidm/Extension.hpp                  | 10 ++++++++++
 include/powsybl/iidm/Generator.hpp                  |  3 +++
 include/powsybl/iidm/ShuntCompensator.hpp           |  3 +++
 include/powsybl/iidm/StaticVarCompensator.hpp       |  3 +++
 include/powsybl/iidm/TapChanger.hpp                 |  5 +++++
 include/powsybl/iidm/TapChanger.hxx                 |  8 ++++++++
 include/powsybl/iidm/ThreeWindingsTransformer.hpp   |  3 +++
 include/powsybl/iidm/TwoWindingsTransformer.hpp     |  3 +++
 include/powsybl/iidm/extensions/SlackTerminal.hpp   |  2 ++
 src/iidm/Connectable.cpp                            |  7 +++++++
 src/iidm/Extendable.cpp                             | 11 +++++++++++
 src/iidm/Extension.cpp                              |  4 ++++
 src/iidm/Generator.cpp                              |  9 +++++++++
 src/iidm/ShuntCompensator.cpp                       |  9 +++++++++
 src/iidm/StaticVarCompensator.cpp                   |  9 +++++++++
 src/iidm/ThreeWindingsTransformer.cpp               | 13 +++++++++++++
 src/iidm/TwoWindingsTransformer.cpp                 | 11 +++++++++++
 src/iidm/extensions/SlackTerminal.cpp               | 11 +++++++++++
 21 files changed, 138 insertions(+)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
index 5cc2a20..1d5a31e 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
@@ -44,6 +44,8 @@ public:
 private:  // Extension
     void assertExtendable(const stdcxx::Reference<Extendable>& extendable) const override;
 
+    bool releaseTerminal(const Terminal& terminal) override;
+
 private:
     RemoteReactivePowerControl(Generator& generator, double targetQ, Terminal& terminal, bool enabled);
 
diff --git a/extensions/iidm/src/RemoteReactivePowerControl.cpp b/extensions/iidm/src/RemoteReactivePowerControl.cpp
index 1ac4025..cb876b6 100644
--- a/extensions/iidm/src/RemoteReactivePowerControl.cpp
+++ b/extensions/iidm/src/RemoteReactivePowerControl.cpp
@@ -59,6 +59,10 @@ bool RemoteReactivePowerControl::isEnabled() const {
     return m_enabled;
 }
 
+bool RemoteReactivePowerControl::releaseTerminal(const Terminal& terminal) {
+    return !stdcxx::areSame(m_regulatingTerminal.get(), terminal);
+}
+
 }  // namespace iidm
 
 }  // namespace extensions
diff --git a/include/powsybl/iidm/Extendable.hpp b/include/powsybl/iidm/Extendable.hpp
index ccac9f1..c3ac0c6 100644
--- a/include/powsybl/iidm/Extendable.hpp
+++ b/include/powsybl/iidm/Extendable.hpp
@@ -73,6 +73,14 @@ public:
     template <typename E, typename = typename std::enable_if<std::is_base_of<Extension, E>::value>::type>
     void removeExtension();
 
+protected:
+    /**
+     * Forget a terminal which is about to be removed from the network
+     */
+    virtual void releaseTerminal(const Terminal& terminal);
+
+    friend class Connectable;
+
 private:
     std::map<std::string, std::unique_ptr<Extension> > m_extensionsByName;
 
diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index e86363a..9e9a729 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -20,6 +20,7 @@ namespace powsybl {
 namespace iidm {
 
 class Extendable;
+class Terminal;
 
 class Extension {
 public:
@@ -55,6 +56,15 @@ protected:
 private:
     virtual void assertExtendable(const stdcxx::Reference<Extendable>& extendable) const = 0;
 
+    /**
+     * Forget a terminal which is about to be removed from the network
+     *
+     * @return false if this extension is meaningless without the terminal and has to be removed
+     */
+    virtual bool releaseTerminal(const Terminal& terminal);
+
+    friend class Extendable;
+
 private:
     stdcxx::Reference<Extendable> m_extendable;
 };
diff --git a/include/powsybl/iidm/Generator.hpp b/include/powsybl/iidm/Generator.hpp
index d360bc7..4a9fb24 100644
--- a/include/powsybl/iidm/Generator.hpp
+++ b/include/powsybl/iidm/Generator.hpp
@@ -78,6 +78,9 @@ public:
 
     Generator& setVoltageSetpoint(double voltageSetpoint);
 
+protected: // Extendable
+    void releaseTerminal(const Terminal& terminal) override;
+
 protected: // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 821c02d..9833fb7 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -72,6 +72,9 @@ public:
 
     ShuntCompensator& setVoltageRegulatorOn(bool voltageRegulatorOn);
 
+protected: // Extendable
+    void releaseTerminal(const Terminal& terminal) override;
+
 protected: // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
diff --git a/include/powsybl/iidm/StaticVarCompensator.hpp b/include/powsybl/iidm/StaticVarCompensator.hpp
index 6e4f396..e38e62e 100644
--- a/include/powsybl/iidm/StaticVarCompensator.hpp
+++ b/include/powsybl/iidm/StaticVarCompensator.hpp
@@ -59,6 +59,9 @@ public:
 
     StaticVarCompensator& setVoltageSetpoint(double voltageSetpoint);
 
+protected: // Extendable
+    void releaseTerminal(const Terminal& terminal) override;
+
 protected: // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index a738d54..050a8da 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -68,6 +68,11 @@ public:
 
     bool isRegulating() const;
 
+    /**
+     * Stop the regulation if the regulated terminal is about to be removed from the network
+     */
+    void releaseTerminal(const Terminal& terminal);
+
     virtual void remove() = 0;
 
     C& setLowTapPosition(long lowTapPosition);
diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 55bc757..1be2d5f 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -164,6 +164,14 @@ void TapChanger<H, C, S>::reduceVariantArraySize(unsigned long number) {
     m_targetDeadband.resize(m_targetDeadband.size() - number);
 }
 
+template<typename H, typename C, typename S>
+void TapChanger<H, C, S>::releaseTerminal(const Terminal& terminal) {
+    if (m_regulationTerminal && stdcxx::areSame(m_regulationTerminal.get(), terminal)) {
+        m_regulationTerminal.reset();
+        m_regulating.assign(m_regulating.size(), false);
+    }
+}
+
 template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
diff --git a/include/powsybl/iidm/ThreeWindingsTransformer.hpp b/include/powsybl/iidm/ThreeWindingsTransformer.hpp
index 5a85e2b..e666cda 100644
--- a/include/powsybl/iidm/ThreeWindingsTransformer.hpp
+++ b/include/powsybl/iidm/ThreeWindingsTransformer.hpp
@@ -61,6 +61,9 @@ public:
 
     Terminal& getTerminal(const Side& side);
 
+protected: // Extendable
+    void releaseTerminal(const Terminal& terminal) override;
+
 protected: // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
diff --git a/include/powsybl/iidm/TwoWindingsTransformer.hpp b/include/powsybl/iidm/TwoWindingsTransformer.hpp
index 39354e6..99cc1e1 100644
--- a/include/powsybl/iidm/TwoWindingsTransformer.hpp
+++ b/include/powsybl/iidm/TwoWindingsTransformer.hpp
@@ -81,6 +81,9 @@ public:
 
     TwoWindingsTransformer& setX(double x);
 
+protected: // Extendable
+    void releaseTerminal(const Terminal& terminal) override;
+
 protected: // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
diff --git a/include/powsybl/iidm/extensions/SlackTerminal.hpp b/include/powsybl/iidm/extensions/SlackTerminal.hpp
index 195e665..2fde676 100644
--- a/include/powsybl/iidm/extensions/SlackTerminal.hpp
+++ b/include/powsybl/iidm/extensions/SlackTerminal.hpp
@@ -66,6 +66,8 @@ public:
 private:  // Extension
     void assertExtendable(const stdcxx::Reference<Extendable>& extendable) const override;
 
+    bool releaseTerminal(const Terminal& terminal) override;
+
 private:
     std::vector<stdcxx::Reference<Terminal>> m_terminals;
 };
diff --git a/src/iidm/Connectable.cpp b/src/iidm/Connectable.cpp
index bd6452a..f3b5615 100644
--- a/src/iidm/Connectable.cpp
+++ b/src/iidm/Connectable.cpp
@@ -118,6 +118,13 @@ void Connectable::reduceVariantArraySize(unsigned long number) {
 void Connectable::remove() {
     Network& network = getNetwork();
 
+    // the terminals can be referenced by other equipments (regulation) or by extensions
+    for (auto& terminal : m_terminals) {
+        for (Identifiable& identifiable : network.getIdentifiables()) {
+            identifiable.releaseTerminal(*terminal);
+        }
+    }
+
     for (auto& terminal : m_terminals) {
         VoltageLevel& voltageLevel = terminal->getVoltageLevel();
         voltageLevel.detach(*terminal);
diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..5c0c552 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -50,6 +50,17 @@ stdcxx::range<Extension> Extendable::getExtensions() {
     return boost::adaptors::values(m_extensionsByName) | boost::adaptors::indirected;
 }
 
+void Extendable::releaseTerminal(const Terminal& terminal) {
+    for (auto it = m_extensionsByName.begin(); it != m_extensionsByName.end();) {
+        if (it->second->releaseTerminal(terminal)) {
+            ++it;
+        } else {
+            m_extensionsByType.erase(it->second->getType());
+            it = m_extensionsByName.erase(it);
+        }
+    }
+}
+
 }  // namespace iidm
 
 }  // namespace powsybl
\ No newline at end of file
diff --git a/src/iidm/Extension.cpp b/src/iidm/Extension.cpp
index 64f968f..eccef48 100644
--- a/src/iidm/Extension.cpp
+++ b/src/iidm/Extension.cpp
@@ -18,6 +18,10 @@ Extension::Extension(powsybl::iidm::Extendable& extendable) :
     m_extendable(extendable) {
 }
 
+bool Extension::releaseTerminal(const Terminal& /*terminal*/) {
+    return true;
+}
+
 void Extension::setExtendable(powsybl::iidm::Extendable& extendable) {
     setExtendable(stdcxx::ref(extendable));
 }
diff --git a/src/iidm/Generator.cpp b/src/iidm/Generator.cpp
index 903879a..eed3232 100644
--- a/src/iidm/Generator.cpp
+++ b/src/iidm/Generator.cpp
@@ -110,6 +110,15 @@ bool Generator::isVoltageRegulatorOn() const {
     return m_voltageRegulatorOn.at(getNetwork().getVariantIndex());
 }
 
+void Generator::releaseTerminal(const Terminal& terminal) {
+    Injection::releaseTerminal(terminal);
+
+    // regulate the own terminal when the regulated one does not exist anymore
+    if (stdcxx::areSame(m_regulatingTerminal.get(), terminal)) {
+        m_regulatingTerminal = getTerminal();
+    }
+}
+
 void Generator::reduceVariantArraySize(unsigned long number) {
     Injection::reduceVariantArraySize(number);
 
diff --git a/src/iidm/ShuntCompensator.cpp b/src/iidm/ShuntCompensator.cpp
index 1e7ac9e..9d98e42 100644
--- a/src/iidm/ShuntCompensator.cpp
+++ b/src/iidm/ShuntCompensator.cpp
@@ -110,6 +110,15 @@ const std::string& ShuntCompensator::getTypeDescription() const {
     return s_typeDescription;
 }
 
+void ShuntCompensator::releaseTerminal(const Terminal& terminal) {
+    Injection::releaseTerminal(terminal);
+
+    // regulate the own terminal when the regulated one does not exist anymore
+    if (stdcxx::areSame(m_regulatingTerminal.get(), terminal)) {
+        m_regulatingTerminal = getTerminal();
+    }
+}
+
 void ShuntCompensator::reduceVariantArraySize(unsigned long number) {
     Injection::reduceVariantArraySize(number);
 
diff --git a/src/iidm/StaticVarCompensator.cpp b/src/iidm/StaticVarCompensator.cpp
index 4ccc4ce..b9141ab 100644
--- a/src/iidm/StaticVarCompensator.cpp
+++ b/src/iidm/StaticVarCompensator.cpp
@@ -80,6 +80,15 @@ double StaticVarCompensator::getVoltageSetpoint() const {
     return m_voltageSetpoint.at(getNetwork().getVariantIndex());
 }
 
+void StaticVarCompensator::releaseTerminal(const Terminal& terminal) {
+    Injection::releaseTerminal(terminal);
+
+    // regulate the own terminal when the regulated one does not exist anymore
+    if (stdcxx::areSame(m_regulatingTerminal.get(), terminal)) {
+        m_regulatingTerminal = getTerminal();
+    }
+}
+
 void StaticVarCompensator::reduceVariantArraySize(unsigned long number) {
     Injection::reduceVariantArraySize(number);
 
diff --git a/src/iidm/ThreeWindingsTransformer.cpp b/src/iidm/ThreeWindingsTransformer.cpp
index 7e8f9b9..31ff8b0 100644
--- a/src/iidm/ThreeWindingsTransformer.cpp
+++ b/src/iidm/ThreeWindingsTransformer.cpp
@@ -145,6 +145,19 @@ const std::string& ThreeWindingsTransformer::getTypeDescription() const {
     return s_typeDescription;
 }
 
+void ThreeWindingsTransformer::releaseTerminal(const Terminal& terminal) {
+    Connectable::releaseTerminal(terminal);
+
+    for (Leg& leg : m_legs) {
+        if (leg.hasRatioTapChanger()) {
+            leg.getRatioTapChanger().releaseTerminal(terminal);
+        }
+        if (leg.hasPhaseTapChanger()) {
+            leg.getPhaseTapChanger().releaseTerminal(terminal);
+        }
+    }
+}
+
 void ThreeWindingsTransformer::reduceVariantArraySize(unsigned long number) {
     Connectable::reduceVariantArraySize(number);
 
diff --git a/src/iidm/TwoWindingsTransformer.cpp b/src/iidm/TwoWindingsTransformer.cpp
index 3bd2cec..4dbd062 100644
--- a/src/iidm/TwoWindingsTransformer.cpp
+++ b/src/iidm/TwoWindingsTransformer.cpp
@@ -157,6 +157,17 @@ RatioTapChangerAdder TwoWindingsTransformer::newRatioTapChanger() {
     return RatioTapChangerAdder(*this);
 }
 
+void TwoWindingsTransformer::releaseTerminal(const Terminal& terminal) {
+    Branch::releaseTerminal(terminal);
+
+    if (hasRatioTapChanger()) {
+        m_ratioTapChanger->releaseTerminal(terminal);
+    }
+    if (hasPhaseTapChanger()) {
+        m_phaseTapChanger->releaseTerminal(terminal);
+    }
+}
+
 void TwoWindingsTransformer::reduceVariantArraySize(unsigned long number) {
     Branch::reduceVariantArraySize(number);
 
diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..312aba5 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -85,6 +85,17 @@ void SlackTerminal::reduceVariantArraySize(unsigned long number) {
     m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
 }
 
+bool SlackTerminal::releaseTerminal(const Terminal& terminal) {
+    bool released = false;
+    for (auto& slackTerminal : m_terminals) {
+        if (slackTerminal && stdcxx::areSame(slackTerminal.get(), terminal)) {
+            slackTerminal.reset();
+            released = true;
+        }
+    }
+    return !released || !isEmpty();
+}
+
 void SlackTerminal::reset(Network& network) {
     for (auto& vl : network.getVoltageLevels()) {
         reset(vl, stdcxx::ref<Terminal>());
-- 
2.43.0


From 20e374f5f0e5e109278b5e0cf4403f5a034a80e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 24/66] fix: remove the last variants of a slack terminal, not
 all the others

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index 312aba5..e77793b 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -82,7 +82,7 @@ bool SlackTerminal::isEmpty() const {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 bool SlackTerminal::releaseTerminal(const Terminal& terminal) {
-- 
2.43.0


From 60f1c623c9aeef27f499856bf079934a5d7620b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 25/66] fix: check the section count of all the variants when
 the maximum section count is changed

---
 src/iidm/ShuntCompensatorLinearModel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iidm/ShuntCompensatorLinearModel.cpp b/src/iidm/ShuntCompensatorLinearModel.cpp
index cb9f4c1..68548f1 100644
--- a/src/iidm/ShuntCompensatorLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorLinearModel.cpp
@@ -73,7 +73,10 @@ ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setGPerSection(double
 }
 
 ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setMaximumSectionCount(unsigned long maximumSectionCount) {
-    checkSections(m_shuntCompensator, m_shuntCompensator.get().getSectionCount(), maximumSectionCount);
+    // the maximum section count is common to all the variants
+    m_shuntCompensator.get().getNetwork().getVariantManager().forEachVariant([this, maximumSectionCount]() {
+        checkSections(m_shuntCompensator, m_shuntCompensator.get().getSectionCount(), maximumSectionCount);
+    });
     m_maximumSectionCount = maximumSectionCount;
     return *this;
 }
-- 
2.43.0


From 775e2219e132aaced6c432aa288ec7fcd0d83ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 26/66] fix: attach the sections of a non linear model to their
 shunt compensator

---
 include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp | 2 ++
 src/iidm/ShuntCompensatorNonLinearModel.cpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
index f22f846..796f593 100644
--- a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
+++ b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
@@ -35,6 +35,8 @@ public:
     private:
         Section& attach(ShuntCompensator& shuntCompensator);
 
+        friend class ShuntCompensatorNonLinearModel;
+
     private:
         stdcxx::Reference<ShuntCompensator> m_shuntCompensator;
 
diff --git a/src/iidm/ShuntCompensatorNonLinearModel.cpp b/src/iidm/ShuntCompensatorNonLinearModel.cpp
index 8120cbd..89e12f8 100644
--- a/src/iidm/ShuntCompensatorNonLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorNonLinearModel.cpp
@@ -59,6 +59,9 @@ ShuntCompensatorNonLinearModel& ShuntCompensatorNonLinearModel::attach(ShuntComp
         throw AssertionError(stdcxx::format("ShuntCompensatorNonLinearModel already attached to %1%", m_shuntCompensator.get().getId()));
     }
     m_shuntCompensator = shuntCompensator;
+    for (Section& section : m_sections) {
+        section.attach(shuntCompensator);
+    }
     return *this;
 }
 
-- 
2.43.0


From 8e48a4188eb2b21bbed6eea77d777500a5af521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 27/66] fix: do not use the number of a leg before its
 initialization

---
 src/iidm/ThreeWindingsTransformerLeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ThreeWindingsTransformerLeg.cpp b/src/iidm/ThreeWindingsTransformerLeg.cpp
index db4587d..1b96843 100644
--- a/src/iidm/ThreeWindingsTransformerLeg.cpp
+++ b/src/iidm/ThreeWindingsTransformerLeg.cpp
@@ -21,7 +21,7 @@ namespace iidm {
 namespace three_windings_transformer {
 
 Leg::Leg(unsigned long legNumber, double r, double x, double g, double b, double ratedU, double ratedS) :
-    FlowsLimitsHolder(stdcxx::format("limits%1%", m_legNumber)),
+    FlowsLimitsHolder(stdcxx::format("limits%1%", legNumber)),
     m_legNumber(legNumber),
     m_r(checkR(*this, r)),
     m_x(checkX(*this, x)),
-- 
2.43.0


From 44a22034b379134cb2ac646f30adb0688cdc3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 28/66] fix: do not return the buses of another voltage level

---
 src/iidm/BusBreakerVoltageLevelViews.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevelViews.cpp b/src/iidm/BusBreakerVoltageLevelViews.cpp
index 668eaac..ef093f1 100644
--- a/src/iidm/BusBreakerVoltageLevelViews.cpp
+++ b/src/iidm/BusBreakerVoltageLevelViews.cpp
@@ -30,10 +30,6 @@ stdcxx::CReference<Bus> BusBreakerViewImpl::getBus(const std::string& busId) con
 }
 
 stdcxx::Reference<Bus> BusBreakerViewImpl::getBus(const std::string& busId) {
-    const auto& bus = m_voltageLevel.getNetwork().find<Bus>(busId);
-    if (bus) {
-        return stdcxx::ref(bus.get());
-    }
     return stdcxx::ref<Bus>(m_voltageLevel.getConfiguredBus(busId, false));
 }
 
-- 
2.43.0


From 9884b58a6fd0bc3e31b6258dc4eae10ac6f86625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 29/66] fix: do not change the index when the objects of a type
 are read

---
 include/powsybl/iidm/NetworkIndex.hpp | 5 ++++-
 include/powsybl/iidm/NetworkIndex.hxx | 8 ++------
 src/iidm/NetworkIndex.cpp             | 7 +++++++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/powsybl/iidm/NetworkIndex.hpp b/include/powsybl/iidm/NetworkIndex.hpp
index e48e555..3665d16 100644
--- a/include/powsybl/iidm/NetworkIndex.hpp
+++ b/include/powsybl/iidm/NetworkIndex.hpp
@@ -84,10 +84,13 @@ private:
 
     using IdentifiablesByType = std::unordered_map<std::type_index, Identifiables>;
 
+private:
+    const Identifiables& getIdentifiables(const std::type_index& type) const;
+
 private:
     IdentifiableById m_objectsById;
 
-    mutable IdentifiablesByType m_objectsByType;
+    IdentifiablesByType m_objectsByType;
 
     std::map<std::string, std::string> m_idByAlias;
 };
diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 813b307..f5d923a 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -92,20 +92,16 @@ stdcxx::range<VoltageLevel> NetworkIndex::getAll<VoltageLevel, VoltageLevel>();
 
 template <typename T, typename U>
 stdcxx::const_range<U> NetworkIndex::getAll() const {
-    const auto& it = m_objectsByType[typeid(T)];
-
     const auto& mapper = map<const U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return getIdentifiables(typeid(T)) | boost::adaptors::transformed(mapper);
 }
 
 template <typename T, typename U>
 stdcxx::range<U> NetworkIndex::getAll() {
-    auto& it = m_objectsByType[typeid(T)];
-
     const auto& mapper = map<U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return getIdentifiables(typeid(T)) | boost::adaptors::transformed(mapper);
 }
 
 template <typename T>
diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index a0b57da..918abc7 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -152,6 +152,13 @@ unsigned long NetworkIndex::getObjectCount<VoltageLevel>() const {
     return getObjectCount<BusBreakerVoltageLevel>() + getObjectCount<NodeBreakerVoltageLevel>();
 }
 
+const NetworkIndex::Identifiables& NetworkIndex::getIdentifiables(const std::type_index& type) const {
+    static const Identifiables s_empty;
+
+    const auto& it = m_objectsByType.find(type);
+    return it == m_objectsByType.end() ? s_empty : it->second;
+}
+
 void NetworkIndex::remove(Identifiable& identifiable) {
     const auto& it = m_objectsById.find(identifiable.getId());
 
-- 
2.43.0


From 2c0b8ed5564bc3503512b3283877decc082b73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 30/66] fix: do not share the storage of the booleans between
 variants

---
 include/powsybl/iidm/DanglingLineGeneration.hpp | 3 ++-
 include/powsybl/iidm/Generator.hpp              | 3 ++-
 include/powsybl/iidm/ShuntCompensator.hpp       | 3 ++-
 include/powsybl/iidm/Switch.hpp                 | 5 +++--
 include/powsybl/iidm/TapChanger.hpp             | 3 ++-
 include/powsybl/iidm/VscConverterStation.hpp    | 4 +++-
 src/iidm/BusTerminal.hpp                        | 3 ++-
 7 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/powsybl/iidm/DanglingLineGeneration.hpp b/include/powsybl/iidm/DanglingLineGeneration.hpp
index 4ece846..be512fd 100644
--- a/include/powsybl/iidm/DanglingLineGeneration.hpp
+++ b/include/powsybl/iidm/DanglingLineGeneration.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_DANGLINGLINEGENERATION_HPP
 #define POWSYBL_IIDM_DANGLINGLINEGENERATION_HPP
 
+#include <deque>
 #include <set>
 #include <vector>
 
@@ -79,7 +80,7 @@ private:
 
     std::vector<double> m_targetV;
 
-    std::vector<bool> m_voltageRegulationOn;
+    std::deque<bool> m_voltageRegulationOn;
 };
 
 }  // namespace dangling_line
diff --git a/include/powsybl/iidm/Generator.hpp b/include/powsybl/iidm/Generator.hpp
index 4a9fb24..ec42f99 100644
--- a/include/powsybl/iidm/Generator.hpp
+++ b/include/powsybl/iidm/Generator.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_GENERATOR_HPP
 #define POWSYBL_IIDM_GENERATOR_HPP
 
+#include <deque>
 #include <functional>
 
 #include <powsybl/iidm/EnergySource.hpp>
@@ -102,7 +103,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_activePowerSetpoint;
 
diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 9833fb7..c846e7b 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_SHUNTCOMPENSATOR_HPP
 #define POWSYBL_IIDM_SHUNTCOMPENSATOR_HPP
 
+#include <deque>
 #include <functional>
 #include <vector>
 
@@ -93,7 +94,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_targetV;
 
diff --git a/include/powsybl/iidm/Switch.hpp b/include/powsybl/iidm/Switch.hpp
index 9a0d39c..d08add1 100644
--- a/include/powsybl/iidm/Switch.hpp
+++ b/include/powsybl/iidm/Switch.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_SWITCH_HPP
 #define POWSYBL_IIDM_SWITCH_HPP
 
+#include <deque>
 #include <vector>
 
 #include <powsybl/iidm/Identifiable.hpp>
@@ -63,9 +64,9 @@ private:
 
     SwitchKind m_kind;
 
-    std::vector<bool> m_open;
+    std::deque<bool> m_open;
 
-    std::vector<bool> m_retained;
+    std::deque<bool> m_retained;
 };
 
 }  // namespace iidm
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index 050a8da..ecd6ba6 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_TAPCHANGER_HPP
 #define POWSYBL_IIDM_TAPCHANGER_HPP
 
+#include <deque>
 #include <functional>
 #include <map>
 #include <set>
@@ -108,7 +109,7 @@ private:
 
     std::vector<long> m_tapPosition;
 
-    std::vector<bool> m_regulating;
+    std::deque<bool> m_regulating;
 
     std::vector<double> m_targetDeadband;
 
diff --git a/include/powsybl/iidm/VscConverterStation.hpp b/include/powsybl/iidm/VscConverterStation.hpp
index d3a49d5..0bd4634 100644
--- a/include/powsybl/iidm/VscConverterStation.hpp
+++ b/include/powsybl/iidm/VscConverterStation.hpp
@@ -8,6 +8,8 @@
 #ifndef POWSYBL_IIDM_VSCCONVERTERSTATION_HPP
 #define POWSYBL_IIDM_VSCCONVERTERSTATION_HPP
 
+#include <deque>
+
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/ReactiveLimitsHolder.hpp>
 
@@ -49,7 +51,7 @@ private: // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_reactivePowerSetpoint;
 
diff --git a/src/iidm/BusTerminal.hpp b/src/iidm/BusTerminal.hpp
index ae19e82..49c0da1 100644
--- a/src/iidm/BusTerminal.hpp
+++ b/src/iidm/BusTerminal.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_BUSTERMINAL_HPP
 #define POWSYBL_IIDM_BUSTERMINAL_HPP
 
+#include <deque>
 #include <iosfwd>
 #include <set>
 #include <string>
@@ -81,7 +82,7 @@ protected: // MultiVariantObject
     void reduceVariantArraySize(unsigned long number) override;
 
 private:
-    std::vector<bool> m_connected;
+    std::deque<bool> m_connected;
 
     std::vector<std::string> m_connectableBusId;
 
-- 
2.43.0


From 985bf0e72c13f8d4703a75bedfe47441afc741c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 31/66] fix: do not share the working variant of a thread
 between the networks

---
 .../ThreadLocalMultipleVariantContext.cpp     | 24 ++++++++++++-------
 .../ThreadLocalMultipleVariantContext.hpp     | 19 +++++++++------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 3eb7ab0..11a5280 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -7,6 +7,7 @@
 
 #include "ThreadLocalMultipleVariantContext.hpp"
 
+#include <atomic>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -16,31 +17,38 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local stdcxx::optional<unsigned long> ThreadLocalMultipleVariantContext::m_index;
+thread_local std::map<unsigned long, unsigned long> ThreadLocalMultipleVariantContext::m_indexes;
+
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() {
+    static std::atomic<unsigned long> s_nextId(0UL);
+    m_id = s_nextId++;
+}
 
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
-    if (m_index) {
-        return *m_index;
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end()) {
+        return it->second;
     }
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
 
 bool ThreadLocalMultipleVariantContext::isIndexSet() const {
-    return static_cast<bool>(m_index);
+    return m_indexes.find(m_id) != m_indexes.end();
 }
 
 void ThreadLocalMultipleVariantContext::reset() {
-    m_index.reset();
+    m_indexes.erase(m_id);
 }
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
-    if (m_index && m_index == index) {
-        m_index.reset();
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end() && it->second == index) {
+        m_indexes.erase(it);
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_index = index;
+    m_indexes[m_id] = index;
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 0c8d9a1..45b0804 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -8,8 +8,9 @@
 #ifndef POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
+#include <map>
+
 #include <powsybl/iidm/VariantContext.hpp>
-#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -26,22 +27,26 @@ public:  // VariantContext
     void setVariantIndex(unsigned long index) override;
 
 public:
-    ThreadLocalMultipleVariantContext() = default;
+    ThreadLocalMultipleVariantContext();
 
-    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     ~ThreadLocalMultipleVariantContext() noexcept override = default;
 
-    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     void reset();
 
 private:
-    static thread_local stdcxx::optional<unsigned long> m_index;
+    // variant indexes of the current thread, by context
+    static thread_local std::map<unsigned long, unsigned long> m_indexes;
+
+    // identifier of this context, never reused by another one
+    unsigned long m_id;
 };
 
 }  // namespace iidm
-- 
2.43.0


From 480baf2805998ad13967faeaabc440b1240f1ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 32/66] fix: export the switches of the bus/breaker topologies
 when the identifiers are anonymized

---
 src/iidm/converter/xml/VoltageLevelXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index dd4524c..881c6f5 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -177,8 +177,8 @@ void VoltageLevelXml::writeBusBreakerTopology(const VoltageLevel& voltageLevel,
         BusXml::getInstance().write(bus, voltageLevel, context);
     }
     for (const Switch& sw : voltageLevel.getBusBreakerView().getSwitches()) {
-        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(context.getAnonymizer().anonymizeString(sw.getId()));
-        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(context.getAnonymizer().anonymizeString(sw.getId()));
+        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(sw.getId());
+        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(sw.getId());
         if (!context.getFilter().test(b1) || !context.getFilter().test(b2)) {
             continue;
         }
-- 
2.43.0


From 1806e0ddc75c090cbdc27b6742948a774d49f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 33/66] fix: anonymize the converter stations of the HVDC lines

---
 src/iidm/converter/xml/HvdcLineXml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iidm/converter/xml/HvdcLineXml.cpp b/src/iidm/converter/xml/HvdcLineXml.cpp
index c59f78d..b921343 100644
--- a/src/iidm/converter/xml/HvdcLineXml.cpp
+++ b/src/iidm/converter/xml/HvdcLineXml.cpp
@@ -36,8 +36,8 @@ HvdcLine& HvdcLineXml::readRootElementAttributes(HvdcLineAdder& adder, NetworkXm
     const auto& convertersMode = Enum::fromString<HvdcLine::ConvertersMode>(context.getReader().getAttributeValue(CONVERTERS_MODE));
     const auto& activePowerSetpoint = context.getReader().getAttributeValue<double>(ACTIVE_POWER_SETPOINT);
     const auto& maxP = context.getReader().getAttributeValue<double>(MAX_P);
-    const std::string& converterStation1 = context.getReader().getAttributeValue(CONVERTER_STATION1);
-    const std::string& converterStation2 = context.getReader().getAttributeValue(CONVERTER_STATION2);
+    const std::string& converterStation1 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION1));
+    const std::string& converterStation2 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION2));
     return adder.setR(r)
         .setNominalV(nominalV)
         .setConvertersMode(convertersMode)
@@ -60,8 +60,8 @@ void HvdcLineXml::writeRootElementAttributes(const HvdcLine& line, const Network
     context.getWriter().writeAttribute(CONVERTERS_MODE, Enum::toString(line.getConvertersMode()));
     context.getWriter().writeAttribute(ACTIVE_POWER_SETPOINT, line.getActivePowerSetpoint());
     context.getWriter().writeAttribute(MAX_P, line.getMaxP());
-    context.getWriter().writeAttribute(CONVERTER_STATION1, line.getConverterStation1().get().getId());
-    context.getWriter().writeAttribute(CONVERTER_STATION2, line.getConverterStation2().get().getId());
+    context.getWriter().writeAttribute(CONVERTER_STATION1, context.getAnonymizer().anonymizeString(line.getConverterStation1().get().getId()));
+    context.getWriter().writeAttribute(CONVERTER_STATION2, context.getAnonymizer().anonymizeString(line.getConverterStation2().get().getId()));
 }
 
 }  // namespace xml
-- 
2.43.0


From 7f0d910e70ce838eba6fafb5f06cd2a31195ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 34/66] fix: read the reactive power of the second boundary of
 the tie lines

---
 src/iidm/converter/xml/TieLineXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/TieLineXml.cpp b/src/iidm/converter/xml/TieLineXml.cpp
index 9f315d4..6956bf8 100644
--- a/src/iidm/converter/xml/TieLineXml.cpp
+++ b/src/iidm/converter/xml/TieLineXml.cpp
@@ -78,12 +78,12 @@ TieLine& TieLineXml::readRootElementAttributes(TieLineAdder& adder, NetworkXmlRe
         double half1BoundaryP = context.getReader().getOptionalAttributeValue(toString(XNODE_P_, 1), stdcxx::nan());
         double half2BoundaryP = context.getReader().getOptionalAttributeValue(toString(XNODE_P_, 2), stdcxx::nan());
         double half1BoundaryQ = context.getReader().getOptionalAttributeValue(toString(XNODE_Q_, 1), stdcxx::nan());
-        double half2BoundaryQ = context.getReader().getOptionalAttributeValue(toString(XNODE_Q_, 1), stdcxx::nan());
+        double half2BoundaryQ = context.getReader().getOptionalAttributeValue(toString(XNODE_Q_, 2), stdcxx::nan());
         context.addEndTask([&tl, half1BoundaryP, half2BoundaryP, half1BoundaryQ, half2BoundaryQ]() {
             checkBoundaryValue(half1BoundaryP, tl.getHalf1().getBoundary().getP(), toString(XNODE_P_, 1), tl.getId());
             checkBoundaryValue(half2BoundaryP, tl.getHalf2().getBoundary().getP(), toString(XNODE_P_, 2), tl.getId());
             checkBoundaryValue(half1BoundaryQ, tl.getHalf1().getBoundary().getQ(), toString(XNODE_Q_, 1), tl.getId());
-            checkBoundaryValue(half2BoundaryQ, tl.getHalf2().getBoundary().getQ(), toString(XNODE_P_, 2), tl.getId());
+            checkBoundaryValue(half2BoundaryQ, tl.getHalf2().getBoundary().getQ(), toString(XNODE_Q_, 2), tl.getId());
         });
     });
     return tl;
-- 
2.43.0


From 2fb07e42e9b9c9034dab46f9875d19da1d45efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 35/66] fix: report a missing boolean or unsigned attribute
 instead of reading a null pointer

---
 src/xml/XmlStreamReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 914a81f..ef7cbd5 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -63,7 +63,7 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
 template <>
 bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     const std::string& booleanStr = XML2S(value.get());
     return boost::iequals(booleanStr, "true");
 }
@@ -88,7 +88,7 @@ long XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     return std::stoul(XML2S(value.get()));
 }
 
-- 
2.43.0


From e7ade8dcbac2d4c7c121a20e13c74b0f22ba1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 36/66] fix: read the subnormal numbers which have been
 exported

---
 src/xml/XmlStreamReader.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index ef7cbd5..df56a61 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -7,6 +7,10 @@
 
 #include <powsybl/xml/XmlStreamReader.hpp>
 
+#include <cmath>
+#include <cstdlib>
+#include <stdexcept>
+
 #include <boost/algorithm/string/predicate.hpp>
 #include <libxml/xmlreader.h>
 
@@ -22,6 +26,19 @@ namespace powsybl {
 
 namespace xml {
 
+static double toDouble(const std::string& str) {
+    try {
+        return std::stod(str);
+    } catch (const std::out_of_range&) {
+        // the subnormal numbers are reported as out of range
+        double value = std::strtod(str.c_str(), nullptr);
+        if (std::fpclassify(value) != FP_SUBNORMAL) {
+            throw;
+        }
+        return value;
+    }
+}
+
 void checkNodeType(xmlTextReader& reader, const xmlReaderTypes& expected) {
     int nodeType = xmlTextReaderNodeType(&reader);
     if (nodeType != expected) {
@@ -71,7 +88,7 @@ bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 template <>
 double XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stod(XML2S(value.get()));
+    return toDouble(XML2S(value.get()));
 }
 
 template <>
@@ -177,7 +194,7 @@ stdcxx::optional<double> XmlStreamReader::getOptionalAttributeValue(const std::s
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stod(XML2S(str.get()));
+        value = toDouble(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 8481f11b9ba58352e5d8d47c938268a6b1db7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 37/66] fix: read the anonymized identifiers which contain a
 semicolon

---
 src/iidm/converter/SimpleAnonymizer.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..2299051 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -10,8 +10,6 @@
 #include <istream>
 #include <ostream>
 
-#include <boost/algorithm/string.hpp>
-
 #include <powsybl/PowsyblException.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
@@ -76,14 +74,13 @@ void SimpleAnonymizer::read(std::istream& stream) {
     std::string line;
     while (std::getline(stream, line))
     {
-        std::vector<std::string> cells;
-        boost::split(cells, line, boost::is_any_of(";"));
-
-        if (cells.size() != 2) {
+        // the original string may contain the separator, not the anonymized one
+        std::string::size_type separator = line.rfind(';');
+        if (separator == std::string::npos) {
             throw PowsyblException(stdcxx::format("Invalid line '%1%'", line));
         }
 
-        m_mapping.insert(Mapping::value_type(cells[0], cells[1]));
+        m_mapping.insert(Mapping::value_type(line.substr(0, separator), line.substr(separator + 1)));
     }
 }
 
-- 
2.43.0


From 839db4f9a7a3dc356bfd03680891dcda62bbaf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 38/66] fix: export the networks which hold an extension that
 cannot be serialized

With the default options, the export of a network with an empty measurements
or slack terminal extension, or with an extension without serializer, failed
with an assertion error instead of leaving the extension out.
---
 src/iidm/converter/xml/NetworkXml.cpp | 43 ++++++++++++++++-----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 1fbf7cb..dc43399 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -76,15 +76,14 @@ stdcxx::CReference<ExtensionXmlSerializer> getExtensionSerializer(const ExportOp
         serializer = stdcxx::cref(extensionProviders.findProviderOrThrowException(extension.getName()));
     } else {
         serializer = extensionProviders.findProvider(extension.getName());
-        if (serializer) {
-            if (!serializer.get().isSerializable(extension)) {
-                serializer.reset();
-            }
-        } else {
+        if (!serializer) {
             logging::Logger& logger = logging::LoggerFactory::getLogger<NetworkXml>();
             logger.warn("No extension XML serializer for %1%", extension.getName());
         }
     }
+    if (serializer && !serializer.get().isSerializable(extension)) {
+        serializer.reset();
+    }
 
     return serializer;
 }
@@ -166,20 +165,16 @@ void writeExtensionNamespaces(const Network& network, NetworkXmlWriterContext& c
     }
 }
 
-void writeExtension(const Extension& extension, NetworkXmlWriterContext& context) {
+void writeExtension(const Extension& extension, const ExtensionXmlSerializer& serializer, NetworkXmlWriterContext& context) {
     powsybl::xml::XmlStreamWriter& writer = context.getWriter();
-    stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
-    if (!serializer) {
-        throw AssertionError(stdcxx::format("Extension XML Serializer of %1% should not be null", extension.getName()));
-    }
 
     const std::string& version = context.getExtensionVersion(extension.getName());
     if (!version.empty()) {
-        serializer.get().checkExtensionVersionSupported(version);
+        serializer.checkExtensionVersionSupported(version);
     }
 
-    writer.writeStartElement(serializer.get().getNamespacePrefix(), extension.getName());
-    serializer.get().write(extension, context);
+    writer.writeStartElement(serializer.getNamespacePrefix(), extension.getName());
+    serializer.write(extension, context);
     writer.writeEndElement();
 }
 
@@ -188,14 +183,26 @@ void writeExtensions(const Network& network, NetworkXmlWriterContext& context) {
         if (!context.isExportedEquipment(identifiable.getId()) || boost::empty(identifiable.getExtensions()) || !context.getOptions().hasAtLeastOneExtension(identifiable.getExtensions())) {
             continue;
         }
-        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
-        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+        // the extensions which have no serializer or nothing to serialize are left out
+        bool started = false;
         for (const auto& extension : identifiable.getExtensions()) {
-            if (context.getOptions().withExtension(extension.getName())) {
-                writeExtension(extension, context);
+            if (!context.getOptions().withExtension(extension.getName())) {
+                continue;
             }
+            const auto& serializer = getExtensionSerializer(context.getOptions(), extension);
+            if (!serializer) {
+                continue;
+            }
+            if (!started) {
+                context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
+                context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+                started = true;
+            }
+            writeExtension(extension, serializer.get(), context);
+        }
+        if (started) {
+            context.getWriter().writeEndElement();
         }
-        context.getWriter().writeEndElement();
     }
 }
 
-- 
2.43.0


From fd46ba7f20cc8cb40c8d6901aee615543633ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 39/66] fix: read the properties and aliases of the configured
 buses

The end of the wrong element was awaited, the import failed on the next element.
---
 src/iidm/converter/xml/BusXml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusXml.cpp b/src/iidm/converter/xml/BusXml.cpp
index d8381f4..6a504f2 100644
--- a/src/iidm/converter/xml/BusXml.cpp
+++ b/src/iidm/converter/xml/BusXml.cpp
@@ -38,7 +38,7 @@ Bus& BusXml::readRootElementAttributes(BusAdder& adder, NetworkXmlReaderContext&
 }
 
 void BusXml::readSubElements(Bus& bus, NetworkXmlReaderContext& context) const {
-    context.getReader().readUntilEndElement(SUBSTATION, [this, &bus, &context]() {
+    context.getReader().readUntilEndElement(BUS, [this, &bus, &context]() {
         AbstractIdentifiableXml::readSubElements(bus, context);
     });
 }
-- 
2.43.0


From a6e49acd6c7eb9b8cf0b423ff57ca1ccbe087be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 40/66] fix: read the active power controls whose droop is
 undefined

An undefined droop is accepted and written as an absent attribute.
---
 extensions/iidm/src/ActivePowerControlXmlSerializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
index 5d03fb5..98adca1 100644
--- a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
+++ b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
@@ -19,6 +19,7 @@
 #include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
 #include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
 
+#include <powsybl/stdcxx/math.hpp>
 #include <powsybl/xml/XmlStreamReader.hpp>
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
@@ -36,7 +37,7 @@ ActivePowerControlXmlSerializer::ActivePowerControlXmlSerializer() :
 
 Extension& ActivePowerControlXmlSerializer::read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const {
     const auto& participate = context.getReader().getAttributeValue<bool>("participate");
-    const auto& droop = context.getReader().getAttributeValue<double>("droop");
+    const auto& droop = context.getReader().getOptionalAttributeValue("droop", stdcxx::nan());
 
     extendable.newExtension<ActivePowerControlAdder>().withParticipate(participate).withDroop(droop).add();
     return extendable.getExtension<ActivePowerControl>();
-- 
2.43.0


From ce0c39143487aa2f3e17823a907fb7a135a43120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 41/66] fix: report the format versions an extension serializer
 does not support

std::out_of_range was thrown by the export instead of an error of the library.
---
 .../xml/AbstractVersionableExtensionXmlSerializer.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
index 3e6c357..db72864 100644
--- a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
+++ b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
@@ -77,7 +77,12 @@ const std::string& AbstractVersionableExtensionXmlSerializer::getVersion() const
 }
 
 const std::string& AbstractVersionableExtensionXmlSerializer::getVersion(const IidmXmlVersion& networkVersion) const {
-    return m_extensionVersions.at(networkVersion.toString(".")).back();
+    const auto& version = networkVersion.toString(".");
+    const auto& it = m_extensionVersions.find(version);
+    if (it == m_extensionVersions.end()) {
+        throw PowsyblException(stdcxx::format("IIDM-XML version of network (%1%) is not supported by the %2% extension's XML serializer", version, getExtensionName()));
+    }
+    return it->second.back();
 }
 
 }  // namespace xml
-- 
2.43.0


From aeecfaea1450812d586314e2420a1d37f58ee85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 42/66] fix: leave out of the older formats what has been
 logged as not supported

When the incompatibilities are logged, the aliases of the network, the tap
changers and remote regulations which the format does not support were written
all the same, and the file could not be read.
---
 src/iidm/converter/xml/AliasesXml.cpp  | 3 +++
 src/iidm/converter/xml/IidmXmlUtil.cpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AliasesXml.cpp b/src/iidm/converter/xml/AliasesXml.cpp
index d01f9a9..ec2f810 100644
--- a/src/iidm/converter/xml/AliasesXml.cpp
+++ b/src/iidm/converter/xml/AliasesXml.cpp
@@ -35,6 +35,9 @@ void AliasesXml::read(Identifiable& identifiable, const NetworkXmlReaderContext&
 
 void AliasesXml::write(const Identifiable& identifiable, const std::string& rootElementName, NetworkXmlWriterContext& context) {
     IidmXmlUtil::assertMinimumVersionIfNotDefault(identifiable.hasAliases(), rootElementName, ALIAS, ErrorMessage::NOT_DEFAULT_NOT_SUPPORTED, IidmXmlVersion::V1_3(), context);
+    if (context.getVersion() < IidmXmlVersion::V1_3()) {
+        return;
+    }
     for (const std::string& alias : identifiable.getAliases()) {
         context.getWriter().writeStartElement(context.getVersion().getPrefix(), ALIAS);
         IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_4(), context.getVersion(), [&context, &alias, &identifiable]() {
diff --git a/src/iidm/converter/xml/IidmXmlUtil.cpp b/src/iidm/converter/xml/IidmXmlUtil.cpp
index d47836e..8de64c8 100644
--- a/src/iidm/converter/xml/IidmXmlUtil.cpp
+++ b/src/iidm/converter/xml/IidmXmlUtil.cpp
@@ -103,7 +103,7 @@ void IidmXmlUtil::assertMinimumVersionIfNotDefault(bool valueIsNotDefault, const
 void IidmXmlUtil::assertMinimumVersionAndRunIfNotDefault(bool valueIsNotDefault, const std::string& rootElementName, const std::string& elementName, const char* errorMessage, const IidmXmlVersion& minVersion, const NetworkXmlWriterContext& context, const std::function<void()>& runnable) {
     if (valueIsNotDefault) {
         assertMinimumVersion(rootElementName, elementName, errorMessage, minVersion, context);
-        runnable();
+        runFromMinimumVersion(minVersion, context.getVersion(), runnable);
     }
 }
 
-- 
2.43.0


From b62f49130d862595f35fb63d80f853301abd9388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 43/66] fix: register the loops of a graph only once in its
 adjacency list

---
 include/powsybl/math/UndirectedGraph.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 987066c..489f7d8 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -196,7 +196,9 @@ const std::vector<std::vector<unsigned long> >& UndirectedGraph<V, E>::getAdjace
             const std::unique_ptr<Edge>& edge = m_edges[e];
             if (edge) {
                 m_adjacencyList[edge->getVertex1()].push_back(e);
-                m_adjacencyList[edge->getVertex2()].push_back(e);
+                if (edge->getVertex1() != edge->getVertex2()) {
+                    m_adjacencyList[edge->getVertex2()].push_back(e);
+                }
             }
         }
     }
-- 
2.43.0


From 33fc821b8a61c917e5faa66cac8c1e4410e222ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 44/66] fix: visit once all the terminals of the buses met by
 the traversals of a bus/breaker topology

---
 src/iidm/BusBreakerVoltageLevel.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index fc914dc..bf5318a 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -407,7 +407,9 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
         unsigned long v = *getVertex(terminal.getConnectableBusId(), true);
         ConfiguredBus& bus = m_graph.getVertexObject(v);
         for (Terminal& t : bus.getTerminals()) {
-            if (!stdcxx::areSame(t, terminal) && traverser.traverse(t, t.isConnected())) {
+            if (traversedTerminals.find(t) == traversedTerminals.end() && traverser.traverse(t, t.isConnected())) {
+                traversedTerminals.emplace(t);
+
                 addNextTerminals(t, nextTerminals);
             }
         }
@@ -421,13 +423,19 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
                     return math::TraverseResult::CONTINUE;
                 }
 
-                BusTerminal& otherTerminal = *otherBus.getTerminals().begin();
-                if (traverser.traverse(otherTerminal, otherTerminal.isConnected())) {
-                    traversedTerminals.emplace(otherTerminal);
-
-                    addNextTerminals(otherTerminal, nextTerminals);
-                    return math::TraverseResult::CONTINUE;
+                // the bus is crossed if at least one of its terminals is
+                math::TraverseResult result = math::TraverseResult::TERMINATE;
+                for (Terminal& t : otherBus.getTerminals()) {
+                    if (traversedTerminals.find(t) != traversedTerminals.end()) {
+                        result = math::TraverseResult::CONTINUE;
+                    } else if (traverser.traverse(t, t.isConnected())) {
+                        traversedTerminals.emplace(t);
+
+                        addNextTerminals(t, nextTerminals);
+                        result = math::TraverseResult::CONTINUE;
+                    }
                 }
+                return result;
             }
             return math::TraverseResult::TERMINATE;
         });
-- 
2.43.0


From 6d6a1eb90c08fd58571506a156cf44c7c004590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 45/66] fix: refuse the negative node numbers and section
 counts of the documents

---
 .../iidm/converter/xml/AbstractConnectableXml.hxx    |  4 ++--
 src/xml/XmlStreamReader.cpp                          | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
index 8694810..c3c34fd 100644
--- a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
+++ b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
@@ -66,11 +66,11 @@ template <typename Added, typename Adder, typename Parent>
 void AbstractConnectableXml<Added, Adder, Parent>::readNodeOrBus(BranchAdder<Adder>& adder, const NetworkXmlReaderContext& context) {
     const auto& bus1 = context.getReader().getOptionalAttributeValue<std::string>(BUS1);
     const auto& connectableBus1 = context.getReader().getOptionalAttributeValue<std::string>(CONNECTABLE_BUS1);
-    const auto& node1 = context.getReader().getOptionalAttributeValue<int>(NODE1);
+    const auto& node1 = context.getReader().getOptionalAttributeValue<unsigned long>(NODE1);
     const std::string& voltageLevelId1 = context.getReader().getAttributeValue(VOLTAGE_LEVEL_ID1);
     const auto& bus2 = context.getReader().getOptionalAttributeValue<std::string>(BUS2);
     const auto& connectableBus2 = context.getReader().getOptionalAttributeValue<std::string>(CONNECTABLE_BUS2);
-    const auto& node2 = context.getReader().getOptionalAttributeValue<int>(NODE2);
+    const auto& node2 = context.getReader().getOptionalAttributeValue<unsigned long>(NODE2);
     const std::string& voltageLevelId2 = context.getReader().getAttributeValue(VOLTAGE_LEVEL_ID2);
     if (bus1) {
         adder.setBus1(context.getAnonymizer().deanonymizeString(*bus1));
diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index df56a61..10eb100 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -26,6 +26,14 @@ namespace powsybl {
 
 namespace xml {
 
+static unsigned long toUnsignedLong(const std::string& str) {
+    // std::stoul silently wraps negative values
+    if (str.find('-') != std::string::npos) {
+        throw XmlStreamException(stdcxx::format("Unable to convert '%1%' into an unsigned integer", str));
+    }
+    return std::stoul(str);
+}
+
 static double toDouble(const std::string& str) {
     try {
         return std::stod(str);
@@ -106,7 +114,7 @@ long XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stoul(XML2S(value.get()));
+    return toUnsignedLong(XML2S(value.get()));
 }
 
 std::string XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
@@ -206,7 +214,7 @@ stdcxx::optional<unsigned long> XmlStreamReader::getOptionalAttributeValue(const
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoul(XML2S(str.get()));
+        value = toUnsignedLong(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 362c54c9ee299777d12d4fdf6e409232765b68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 46/66] fix: make the order of the topology traversals
 independent of the addresses of the terminals

---
 include/powsybl/iidm/VoltageLevel.hpp |  4 +++-
 src/iidm/BusBreakerVoltageLevel.cpp   |  2 +-
 src/iidm/NodeBreakerVoltageLevel.cpp  |  2 +-
 src/iidm/VoltageLevel.cpp             | 30 +++++++++++++++++++--------
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/powsybl/iidm/VoltageLevel.hpp b/include/powsybl/iidm/VoltageLevel.hpp
index 71b4ca0..ff1a242 100644
--- a/include/powsybl/iidm/VoltageLevel.hpp
+++ b/include/powsybl/iidm/VoltageLevel.hpp
@@ -8,7 +8,9 @@
 #ifndef POWSYBL_IIDM_VOLTAGELEVEL_HPP
 #define POWSYBL_IIDM_VOLTAGELEVEL_HPP
 
+#include <functional>
 #include <set>
+#include <vector>
 
 #include <powsybl/iidm/Connectable.hpp>
 #include <powsybl/iidm/Container.hpp>
@@ -193,7 +195,7 @@ public:
     void visitEquipments(TopologyVisitor& visitor) const;
 
 protected:
-    static void addNextTerminals(Terminal& otherTerminal, TerminalSet& nextTerminals);
+    static void addNextTerminals(Terminal& otherTerminal, std::vector<std::reference_wrapper<Terminal>>& nextTerminals);
 
 protected:
     VoltageLevel(const std::string& id, const std::string& name, bool fictitious, Substation& substation,
diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index bf5318a..8f34695 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -395,7 +395,7 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
         return;
     }
 
-    TerminalSet nextTerminals;
+    std::vector<std::reference_wrapper<Terminal>> nextTerminals;
 
     // check if we are allowed to traverse the terminal itself
     if (traverser.traverse(terminal, terminal.isConnected())) {
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index a384784..84dd47a 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -424,7 +424,7 @@ void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::Top
         traversedTerminals.emplace(terminal);
 
         unsigned long node = terminal.getNode();
-        TerminalSet nextTerminals;
+        std::vector<std::reference_wrapper<Terminal>> nextTerminals;
 
         addNextTerminals(terminal, nextTerminals);
 
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 282d389..2fed8ce 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -7,6 +7,8 @@
 
 #include <powsybl/iidm/VoltageLevel.hpp>
 
+#include <algorithm>
+
 #include <powsybl/iidm/Battery.hpp>
 #include <powsybl/iidm/BatteryAdder.hpp>
 #include <powsybl/iidm/Bus.hpp>
@@ -44,28 +46,38 @@ VoltageLevel::VoltageLevel(const std::string& id, const std::string& name, bool
     checkVoltageLimits(*this, m_lowVoltageLimit, m_highVoltageLimit);
 }
 
-void VoltageLevel::addNextTerminals(Terminal& otherTerminal, TerminalSet& nextTerminals) {
+void VoltageLevel::addNextTerminals(Terminal& otherTerminal, std::vector<std::reference_wrapper<Terminal>>& nextTerminals) {
+    // the order of the terminals does not depend on their addresses
+    auto add = [&nextTerminals](Terminal& terminal) {
+        const auto& it = std::find_if(nextTerminals.begin(), nextTerminals.end(), [&terminal](const Terminal& nextTerminal) {
+            return stdcxx::areSame(nextTerminal, terminal);
+        });
+        if (it == nextTerminals.end()) {
+            nextTerminals.emplace_back(terminal);
+        }
+    };
+
     Connectable& otherConnectable = otherTerminal.getConnectable();
     if (stdcxx::isInstanceOf<Branch>(otherConnectable)) {
         auto& branch = dynamic_cast<Branch&>(otherConnectable);
         if (stdcxx::areSame(branch.getTerminal1(), otherTerminal)) {
-            nextTerminals.emplace(branch.getTerminal2());
+            add(branch.getTerminal2());
         } else if (stdcxx::areSame(branch.getTerminal2(), otherTerminal)) {
-            nextTerminals.emplace(branch.getTerminal1());
+            add(branch.getTerminal1());
         } else {
             throw AssertionError("Terminal is not one the branch terminals");
         }
     } else if (stdcxx::isInstanceOf<ThreeWindingsTransformer>(otherConnectable)) {
         auto& ttc = dynamic_cast<ThreeWindingsTransformer&>(otherConnectable);
         if (stdcxx::areSame(ttc.getLeg1().getTerminal(), otherTerminal)) {
-            nextTerminals.emplace(ttc.getLeg2().getTerminal());
-            nextTerminals.emplace(ttc.getLeg3().getTerminal());
+            add(ttc.getLeg2().getTerminal());
+            add(ttc.getLeg3().getTerminal());
         } else if (stdcxx::areSame(ttc.getLeg2().getTerminal(), otherTerminal)) {
-            nextTerminals.emplace(ttc.getLeg1().getTerminal());
-            nextTerminals.emplace(ttc.getLeg3().getTerminal());
+            add(ttc.getLeg1().getTerminal());
+            add(ttc.getLeg3().getTerminal());
         } else if (stdcxx::areSame(ttc.getLeg3().getTerminal(), otherTerminal)) {
-            nextTerminals.emplace(ttc.getLeg1().getTerminal());
-            nextTerminals.emplace(ttc.getLeg2().getTerminal());
+            add(ttc.getLeg1().getTerminal());
+            add(ttc.getLeg2().getTerminal());
         } else {
             throw AssertionError("Terminal is not one the 3 legs terminals");
         }
-- 
2.43.0


From 79bdb4be9595058b16e1079379bf5451f7db1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 47/66] fix: give the types of HVDC converter stations their
 own names

---
 src/iidm/HvdcConverterStation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/HvdcConverterStation.cpp b/src/iidm/HvdcConverterStation.cpp
index b89bd82..eb491da 100644
--- a/src/iidm/HvdcConverterStation.cpp
+++ b/src/iidm/HvdcConverterStation.cpp
@@ -52,8 +52,8 @@ namespace Enum {
 template <>
 const std::initializer_list<std::string>& getNames<HvdcConverterStation::HvdcType>() {
     static std::initializer_list<std::string> s_typeNames {
-            "LCC",
-            "VSC"
+            "VSC",
+            "LCC"
     };
     return s_typeNames;
 }
-- 
2.43.0


From 5184a471a01a039bfdb7be31f649e8ce81d58d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 48/66] fix: refuse the dates followed by something else

---
 src/stdcxx/DateTime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stdcxx/DateTime.cpp b/src/stdcxx/DateTime.cpp
index 1f36c57..408c89b 100644
--- a/src/stdcxx/DateTime.cpp
+++ b/src/stdcxx/DateTime.cpp
@@ -27,8 +27,9 @@ DateTime DateTime::parse(const std::string& date) {
     auto facet = stdcxx::make_unique<boost::local_time::local_time_input_facet>(s_iso8601);
     buffer.imbue(std::locale(std::locale::classic(), facet.release()));
 
+    // nothing but spaces is expected after the date
     std::string dummy;
-    if ((buffer >> localDateTime) && (buffer >> dummy).eof()) {
+    if ((buffer >> localDateTime) && !(buffer >> dummy)) {
         return DateTime(localDateTime);
     }
 
-- 
2.43.0


From a64205c9d0190a582431cbe66d1677d7117682bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 49/66] fix: write the numbers the same way whatever the global
 locale is

---
 include/powsybl/stdcxx/format.hxx | 3 ++-
 include/powsybl/stdcxx/math.hpp   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/stdcxx/format.hxx b/include/powsybl/stdcxx/format.hxx
index 5f19375..27f6846 100644
--- a/include/powsybl/stdcxx/format.hxx
+++ b/include/powsybl/stdcxx/format.hxx
@@ -11,6 +11,7 @@
 #include <powsybl/stdcxx/format.hpp>
 
 #include <iterator>
+#include <locale>
 #include <set>
 #include <sstream>
 #include <vector>
@@ -33,7 +34,7 @@ void format(boost::format& fmt, const Arg& arg, const Args&... args) {
 
 template <typename... Args>
 std::string format(const std::string& message, const Args&... args) {
-    boost::format fmt(message);
+    boost::format fmt(message, std::locale::classic());
     format(fmt, args...);
 
     return fmt.str();
diff --git a/include/powsybl/stdcxx/math.hpp b/include/powsybl/stdcxx/math.hpp
index 032a90b..941e98e 100644
--- a/include/powsybl/stdcxx/math.hpp
+++ b/include/powsybl/stdcxx/math.hpp
@@ -10,6 +10,7 @@
 
 #include <cmath>
 #include <limits>
+#include <locale>
 #include <sstream>
 
 #if __cplusplus >= 201703L
@@ -55,6 +56,7 @@ inline T nan() {
 template <typename T>
 std::string to_string(const T& value) {
     std::ostringstream out;
+    out.imbue(std::locale::classic());
     out.precision(std::numeric_limits<T>::max_digits10);
     out << value;
     return out.str();
-- 
2.43.0


From 587a101a30e3772afefb83ca0da4ed9c99c6bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 50/66] fix: log the messages which are already formatted as
 they are

---
 include/powsybl/logging/Logger.hpp |  3 +++
 include/powsybl/logging/Logger.hxx | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/powsybl/logging/Logger.hpp b/include/powsybl/logging/Logger.hpp
index b21378b..6f8432b 100644
--- a/include/powsybl/logging/Logger.hpp
+++ b/include/powsybl/logging/Logger.hpp
@@ -121,6 +121,9 @@ private:
      * @param message the message to log
      */
     virtual void log(const Level& level, const std::string& message) = 0;
+
+    template <typename... T>
+    static std::string toText(const std::string& message, const T&... args);
 };
 
 }  // namespace logging
diff --git a/include/powsybl/logging/Logger.hxx b/include/powsybl/logging/Logger.hxx
index 4f71b23..08f31d7 100644
--- a/include/powsybl/logging/Logger.hxx
+++ b/include/powsybl/logging/Logger.hxx
@@ -19,38 +19,44 @@ namespace logging {
 template <typename... T>
 void Logger::debug(const std::string& message, const T&... args) {
     if (isDebugEnabled()) {
-        log(Level::DEBUG, stdcxx::format(message, args...));
+        log(Level::DEBUG, toText(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::error(const std::string& message, const T&... args) {
     if (isErrorEnabled()) {
-        log(Level::ERROR, stdcxx::format(message, args...));
+        log(Level::ERROR, toText(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::info(const std::string& message, const T&... args) {
     if (isInfoEnabled()) {
-        log(Level::INFO, stdcxx::format(message, args...));
+        log(Level::INFO, toText(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::trace(const std::string& message, const T&... args) {
     if (isTraceEnabled()) {
-        log(Level::TRACE, stdcxx::format(message, args...));
+        log(Level::TRACE, toText(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::warn(const std::string& message, const T&... args) {
     if (isWarnEnabled()) {
-        log(Level::WARN, stdcxx::format(message, args...));
+        log(Level::WARN, toText(message, args...));
     }
 }
 
+template <typename... T>
+std::string Logger::toText(const std::string& message, const T&... args) {
+    // without any argument the message is complete: its '%' are not the ones of a format
+    return sizeof...(args) == 0 ? message : stdcxx::format(message, args...);
+}
+
 }  // namespace logging
 
 }  // namespace powsybl
-- 
2.43.0


From 02782c04675d81244832d536901150790213d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 51/66] fix: refuse the numbers of the documents followed by
 something else

---
 src/xml/XmlStreamReader.cpp | 41 +++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 10eb100..0f74520 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -26,23 +26,52 @@ namespace powsybl {
 
 namespace xml {
 
+// std::stod, std::stoi... ignore what follows the number
+static void checkEnd(const std::string& str, std::size_t pos) {
+    if (str.find_first_not_of(" \t\r\n", pos) != std::string::npos) {
+        throw XmlStreamException(stdcxx::format("Unable to convert '%1%' into a number", str));
+    }
+}
+
+static int toInt(const std::string& str) {
+    std::size_t pos = 0;
+    int value = std::stoi(str, &pos);
+    checkEnd(str, pos);
+    return value;
+}
+
+static long toLong(const std::string& str) {
+    std::size_t pos = 0;
+    long value = std::stol(str, &pos);
+    checkEnd(str, pos);
+    return value;
+}
+
 static unsigned long toUnsignedLong(const std::string& str) {
     // std::stoul silently wraps negative values
     if (str.find('-') != std::string::npos) {
         throw XmlStreamException(stdcxx::format("Unable to convert '%1%' into an unsigned integer", str));
     }
-    return std::stoul(str);
+    std::size_t pos = 0;
+    unsigned long value = std::stoul(str, &pos);
+    checkEnd(str, pos);
+    return value;
 }
 
 static double toDouble(const std::string& str) {
     try {
-        return std::stod(str);
+        std::size_t pos = 0;
+        double value = std::stod(str, &pos);
+        checkEnd(str, pos);
+        return value;
     } catch (const std::out_of_range&) {
         // the subnormal numbers are reported as out of range
-        double value = std::strtod(str.c_str(), nullptr);
+        char* end = nullptr;
+        double value = std::strtod(str.c_str(), &end);
         if (std::fpclassify(value) != FP_SUBNORMAL) {
             throw;
         }
+        checkEnd(str, static_cast<std::size_t>(end - str.c_str()));
         return value;
     }
 }
@@ -102,13 +131,13 @@ double XmlStreamReader::getAttributeValue(const std::string& attributeName) cons
 template <>
 int XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stoi(XML2S(value.get()));
+    return toInt(XML2S(value.get()));
 }
 
 template <>
 long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stol(XML2S(value.get()));
+    return toLong(XML2S(value.get()));
 }
 
 template <>
@@ -190,7 +219,7 @@ stdcxx::optional<int> XmlStreamReader::getOptionalAttributeValue(const std::stri
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoi(XML2S(str.get()));
+        value = toInt(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 25bfb2f77eb0de289e82f2cef082cdd4f9054346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 52/66] fix: forget the variants of the threads on the networks
 which have been destroyed

---
 .../ThreadLocalMultipleVariantContext.cpp     | 22 ++++++++++++++-----
 .../ThreadLocalMultipleVariantContext.hpp     | 12 +++++++++-
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 11a5280..e31180b 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -8,6 +8,7 @@
 #include "ThreadLocalMultipleVariantContext.hpp"
 
 #include <atomic>
+#include <iterator>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -17,9 +18,10 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local std::map<unsigned long, unsigned long> ThreadLocalMultipleVariantContext::m_indexes;
+thread_local std::map<unsigned long, ThreadLocalMultipleVariantContext::Entry> ThreadLocalMultipleVariantContext::m_indexes;
 
-ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() {
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() :
+    m_alive(std::make_shared<bool>(true)) {
     static std::atomic<unsigned long> s_nextId(0UL);
     m_id = s_nextId++;
 }
@@ -27,7 +29,7 @@ ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() {
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
     const auto& it = m_indexes.find(m_id);
     if (it != m_indexes.end()) {
-        return it->second;
+        return it->second.index;
     }
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
@@ -42,13 +44,23 @@ void ThreadLocalMultipleVariantContext::reset() {
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
     const auto& it = m_indexes.find(m_id);
-    if (it != m_indexes.end() && it->second == index) {
+    if (it != m_indexes.end() && it->second.index == index) {
         m_indexes.erase(it);
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_indexes[m_id] = index;
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end()) {
+        it->second.index = index;
+        return;
+    }
+
+    // forget the contexts which have been destroyed
+    for (auto it2 = m_indexes.begin(); it2 != m_indexes.end();) {
+        it2 = it2->second.context.expired() ? m_indexes.erase(it2) : std::next(it2);
+    }
+    m_indexes.emplace(m_id, Entry{m_alive, index});
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 45b0804..127fcfd 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -9,6 +9,7 @@
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
 #include <map>
+#include <memory>
 
 #include <powsybl/iidm/VariantContext.hpp>
 
@@ -42,8 +43,17 @@ public:
     void reset();
 
 private:
+    struct Entry {
+        // expired when the context has been destroyed
+        std::weak_ptr<bool> context;
+
+        unsigned long index;
+    };
+
     // variant indexes of the current thread, by context
-    static thread_local std::map<unsigned long, unsigned long> m_indexes;
+    static thread_local std::map<unsigned long, Entry> m_indexes;
+
+    std::shared_ptr<bool> m_alive;
 
     // identifier of this context, never reused by another one
     unsigned long m_id;
-- 
2.43.0


From 2b32cdb84e5346e08d02ecb20ca2a7afd2c3233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 53/66] fix: measurements of a type: keep the type as long as
 the range

---
 extensions/iidm/src/DiscreteMeasurements.cpp | 4 ++--
 extensions/iidm/src/Measurements.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurements.cpp b/extensions/iidm/src/DiscreteMeasurements.cpp
index 519ff06..35e7aec 100644
--- a/extensions/iidm/src/DiscreteMeasurements.cpp
+++ b/extensions/iidm/src/DiscreteMeasurements.cpp
@@ -64,7 +64,7 @@ stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements
 }
 
 stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -72,7 +72,7 @@ stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasur
 }
 
 stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
diff --git a/extensions/iidm/src/Measurements.cpp b/extensions/iidm/src/Measurements.cpp
index 6853d7a..d2c03fb 100644
--- a/extensions/iidm/src/Measurements.cpp
+++ b/extensions/iidm/src/Measurements.cpp
@@ -59,7 +59,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements() const {
 }
 
 stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -67,7 +67,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement
 }
 
 stdcxx::range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
-- 
2.43.0


From 6dbd487da2391d65a57be6972cd503e21df4914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 54/66] fix: adding a measurement without id returns the added
 measurement

---
 extensions/iidm/src/DiscreteMeasurementAdder.cpp | 3 ++-
 extensions/iidm/src/MeasurementAdder.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index aeb5606..6829cb8 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -32,9 +32,10 @@ DiscreteMeasurement& DiscreteMeasurementAdder::add() {
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
         new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+    DiscreteMeasurement& added = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-    return m_discreteMeasurements.getDiscreteMeasurement(m_id);
+    return added;
 }
 
 DiscreteMeasurementAdder& DiscreteMeasurementAdder::putProperty(const std::string& name, const std::string& value) {
diff --git a/extensions/iidm/src/MeasurementAdder.cpp b/extensions/iidm/src/MeasurementAdder.cpp
index 8caabb7..195c59d 100644
--- a/extensions/iidm/src/MeasurementAdder.cpp
+++ b/extensions/iidm/src/MeasurementAdder.cpp
@@ -31,8 +31,9 @@ Measurement& MeasurementAdder::add() {
     MeasurementValidationUtil::checkValue(m_value, m_valid);
     MeasurementValidationUtil::checkSide(*m_type, m_side, m_measurements.getExtendable<Connectable>().get());
     std::unique_ptr<Measurement> measurement = stdcxx::make_unique<Measurement>(m_measurements, m_id, *m_type, m_properties, m_value, m_standardDeviation, m_valid, m_side);
+    Measurement& added = *measurement;
     m_measurements.add(std::move(measurement));
-    return m_measurements.getMeasurement(m_id).get();
+    return added;
 }
 
 MeasurementAdder& MeasurementAdder::putProperty(const std::string& name, const std::string& value) {
-- 
2.43.0


From 4f17752bcb5c786fe9785a871671294c3750b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 55/66] fix: refuse a discrete measurement without type

---
 .../iidm/extensions/iidm/DiscreteMeasurementAdder.hpp    | 2 +-
 extensions/iidm/src/DiscreteMeasurementAdder.cpp         | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
index 904e835..85309d9 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
@@ -80,7 +80,7 @@ private:
 
     std::string m_id;
 
-    DiscreteMeasurement::Type m_type;
+    stdcxx::optional<DiscreteMeasurement::Type> m_type;
 
     stdcxx::optional<DiscreteMeasurement::TapChanger> m_tapChanger;
 
diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index 6829cb8..cde8bf4 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -26,12 +26,15 @@ DiscreteMeasurementAdder::DiscreteMeasurementAdder(DiscreteMeasurements& discret
 
 DiscreteMeasurement& DiscreteMeasurementAdder::add() {
     DiscreteMeasurementValidationUtil::checkId(m_id, m_discreteMeasurements);
-    DiscreteMeasurementValidationUtil::checkType(m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
-    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    if (!m_type) {
+        throw PowsyblException("Discrete measurement type can not be null");
+    }
+    DiscreteMeasurementValidationUtil::checkType(*m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, *m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
     DiscreteMeasurementValidationUtil::checkValue(m_value, m_valid);
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
-        new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+        new DiscreteMeasurement(m_discreteMeasurements, m_id, *m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
     DiscreteMeasurement& added = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-- 
2.43.0


From 1fe44254d0379b2f4c45394c02f297f20f20ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 56/66] fix: refuse the valid measurements without value when
 they are modified

---
 extensions/iidm/src/DiscreteMeasurement.cpp               | 6 ++----
 extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp | 3 ++-
 extensions/iidm/src/Measurement.cpp                       | 3 +++
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurement.cpp b/extensions/iidm/src/DiscreteMeasurement.cpp
index ce6c1cc..359e5c6 100644
--- a/extensions/iidm/src/DiscreteMeasurement.cpp
+++ b/extensions/iidm/src/DiscreteMeasurement.cpp
@@ -159,6 +159,7 @@ DiscreteMeasurement& DiscreteMeasurement::removeProperty(const std::string& name
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValid(bool valid) {
+    DiscreteMeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
@@ -171,10 +172,7 @@ DiscreteMeasurement& DiscreteMeasurement::setValue(const std::string& value) {
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValue(const char* value) {
-    DiscreteMeasurementValidationUtil::checkValue(value, isValid());
-    m_value = std::string(value);
-    m_valueType = ValueType::STRING;
-    return *this;
+    return setValue(std::string(value));
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValue(bool value) {
diff --git a/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp b/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp
index a660d64..e307fa7 100644
--- a/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp
@@ -62,7 +62,8 @@ void checkType(const DiscreteMeasurement::Type& type, const Identifiable& identi
 }
 
 void checkValue(const boost::any& value, bool valid) {
-    if (value.empty() && valid) {
+    const auto* text = boost::any_cast<std::string>(&value);
+    if ((value.empty() || (text != nullptr && text->empty())) && valid) {
         throw PowsyblException("A valid discrete measurement can not have an undefined value");
     }
 }
diff --git a/extensions/iidm/src/Measurement.cpp b/extensions/iidm/src/Measurement.cpp
index b03f2b6..dbc6fdf 100644
--- a/extensions/iidm/src/Measurement.cpp
+++ b/extensions/iidm/src/Measurement.cpp
@@ -10,6 +10,7 @@
 #include <boost/range/adaptor/map.hpp>
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/extensions/iidm/MeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/Measurements.hpp>
 
 namespace powsybl {
@@ -127,11 +128,13 @@ Measurement& Measurement::setStandardDeviation(double standardDeviation) {
 }
 
 Measurement& Measurement::setValid(bool valid) {
+    MeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
 
 Measurement& Measurement::setValue(double value) {
+    MeasurementValidationUtil::checkValue(value, m_valid);
     m_value = value;
     return *this;
 }
-- 
2.43.0


From 8565a89b624df617a957a18ebf7dfcf894ccd24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 57/66] fix: read back the discrete measurements whose text is
 empty

---
 extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp b/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
index 589f09b..10fa9e4 100644
--- a/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
@@ -63,7 +63,9 @@ void DiscreteMeasurementsXmlSerializer::readDiscreteMeasurement(DiscreteMeasurem
         adder.setTapChanger(Enum::fromString<DiscreteMeasurement::TapChanger>(tapChanger));
     }
     auto valueType = Enum::fromString<DiscreteMeasurement::ValueType>(reader.getAttributeValue(VALUE_TYPE));
-    if (!reader.getOptionalAttributeValue(VALUE, "").empty()) {
+    if (valueType == DiscreteMeasurement::ValueType::STRING) {
+        adder.setValue(reader.getOptionalAttributeValue(VALUE, ""));
+    } else if (!reader.getOptionalAttributeValue(VALUE, "").empty()) {
         switch (valueType) {
             case DiscreteMeasurement::ValueType::BOOLEAN:
                 adder.setValue(reader.getAttributeValue<bool>(VALUE));
@@ -73,10 +75,6 @@ void DiscreteMeasurementsXmlSerializer::readDiscreteMeasurement(DiscreteMeasurem
                 adder.setValue(reader.getAttributeValue<int>(VALUE));
                 break;
 
-            case DiscreteMeasurement::ValueType::STRING:
-                adder.setValue(reader.getAttributeValue(VALUE));
-                break;
-
             default:
                 throw PowsyblException(stdcxx::format("Unsupported value type: %1%", valueType));
         }
-- 
2.43.0


From 7dfc8bde3f99ca70723f68609ad855d58dc8f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 58/66] fix: refuse the empty names of feeders

---
 extensions/sld/src/ConnectablePosition.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/sld/src/ConnectablePosition.cpp b/extensions/sld/src/ConnectablePosition.cpp
index 42b8391..762de1f 100644
--- a/extensions/sld/src/ConnectablePosition.cpp
+++ b/extensions/sld/src/ConnectablePosition.cpp
@@ -57,6 +57,9 @@ ConnectablePosition::Feeder& ConnectablePosition::Feeder::setDirection(const Dir
 }
 
 ConnectablePosition::Feeder& ConnectablePosition::Feeder::setName(const std::string& name) {
+    if (name.empty()) {
+        throw PowsyblException("Feeder name is empty");
+    }
     m_name = name;
     return *this;
 }
-- 
2.43.0


From bbf5c64a82641da27e41b7c961ac6419de7f1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:26 +0000
Subject: [PATCH 59/66] fix: write the extensions of the network itself

---
 src/iidm/converter/xml/NetworkXml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index dc43399..500797c 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -338,6 +338,8 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
         HvdcLineXml::getInstance().write(line, network, context);
     }
 
+    // the network itself has been exported so its extensions have to be written too
+    context.addExportedEquipment(network);
     writeExtensions(network, context);
 
     writer.writeEndElement();
-- 
2.43.0


From 82a075dd97b69f15b095d00f93bfe280616598c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 60/66] fix: read the numbers of the documents whatever the
 global locale

---
 src/xml/XmlStreamReader.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 0f74520..fbc227c 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -8,10 +8,12 @@
 #include <powsybl/xml/XmlStreamReader.hpp>
 
 #include <cmath>
+#include <cstdio>
 #include <cstdlib>
 #include <stdexcept>
 
 #include <boost/algorithm/string/predicate.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <libxml/xmlreader.h>
 
 #include <powsybl/AssertionError.hpp>
@@ -58,7 +60,24 @@ static unsigned long toUnsignedLong(const std::string& str) {
     return value;
 }
 
-static double toDouble(const std::string& str) {
+// std::stod and std::strtod expect the decimal separator of the global locale
+static std::string toGlobalLocale(const std::string& str) {
+    char buffer[16] = {};
+    std::snprintf(buffer, sizeof(buffer), "%.1f", 0.5);
+    const std::string sample(buffer);
+    const std::string& separator = sample.substr(1, sample.size() - 2);
+
+    if (separator == ".") {
+        return str;
+    }
+    if (str.find(separator) != std::string::npos) {
+        throw XmlStreamException(stdcxx::format("Unable to convert '%1%' into a number", str));
+    }
+    return boost::algorithm::replace_all_copy(str, ".", separator);
+}
+
+static double toDouble(const std::string& attributeValue) {
+    const std::string& str = toGlobalLocale(attributeValue);
     try {
         std::size_t pos = 0;
         double value = std::stod(str, &pos);
-- 
2.43.0


From 651ef330d29a6a92e5ebd18407c4bac9ea85734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 61/66] fix: report the exports which could not be written
 entirely

---
 src/iidm/Network.cpp                  | 4 ++++
 src/iidm/converter/xml/NetworkXml.cpp | 4 ++++
 src/xml/XmlStreamWriter.cpp           | 9 ++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/iidm/Network.cpp b/src/iidm/Network.cpp
index b7dd6c6..afec8cd 100644
--- a/src/iidm/Network.cpp
+++ b/src/iidm/Network.cpp
@@ -63,6 +63,10 @@ void Network::writeXml(const boost::filesystem::path& path, const Network& netwo
         throw PowsyblException(stdcxx::format("Unable to open file '%1%' for writing", path.string()));
     }
     converter::xml::NetworkXml::write(path.string(), os, network, options);
+    os.close();
+    if (!os) {
+        throw PowsyblException(stdcxx::format("Failed to write file '%1%'", path.string()));
+    }
 }
 
 void Network::writeXml(const std::string& filename, std::ostream& ostream, const Network& network, const converter::ExportOptions& options) {
diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 500797c..a8e71e2 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -352,6 +352,10 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
             throw PowsyblException(stdcxx::format("Unable to open file '%1%' for writing", csvPath.string()));
         }
         context.getAnonymizer().write(csvStream);
+        csvStream.close();
+        if (!csvStream) {
+            throw PowsyblException(stdcxx::format("Failed to write file '%1%'", csvPath.string()));
+        }
     }
 
     auto endTime = std::chrono::high_resolution_clock::now();
diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 9f80944..ae19275 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -85,6 +85,9 @@ void XmlStreamWriter::writeEndDocument() {
     // deleting the xmlTextWriter pointer automatically calls xmlTextWriterFlush() and write to stream
     // m_writer is instanciated in writeStartElement, so it must be deleted here
     m_writer.reset();
+    if (!m_stream) {
+        throw XmlStreamException("Failed to write the document");
+    }
 }
 
 void XmlStreamWriter::writeEndElement() {
@@ -149,7 +152,11 @@ void XmlStreamWriter::writeStartDocument(const std::string& encoding, const std:
     auto writeCallback = [](void* context, const char* buffer, int len) {
         XmlStreamWriter& writer = *static_cast<XmlStreamWriter*>(context);
 
-        writer.m_stream.write(buffer, len);
+        try {
+            writer.m_stream.write(buffer, len);
+        } catch (...) {
+            // an exception must not go through libxml2: the failure is reported at the end of the document
+        }
 
         return len;
     };
-- 
2.43.0


From 7e32f70c52001fbbab96c25462eba411716d3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 62/66] fix: refuse the mappings which cannot be read

---
 src/iidm/converter/SimpleAnonymizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 2299051..78b9e5c 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -82,6 +82,9 @@ void SimpleAnonymizer::read(std::istream& stream) {
 
         m_mapping.insert(Mapping::value_type(line.substr(0, separator), line.substr(separator + 1)));
     }
+    if (stream.bad()) {
+        throw PowsyblException("Failed to read the mapping");
+    }
 }
 
 void SimpleAnonymizer::write(std::ostream& stream) const {
-- 
2.43.0


From 42a9f50ecf8731fc2f3cd8a9cfcf86f27f012326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 63/66] fix: do not let the exceptions of the streams go
 through libxml2 while reading

---
 src/xml/XmlStreamReader.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index fbc227c..1702a9f 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -114,9 +114,13 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
     auto readCallback = [](void* context, char* buffer, int len) {
         XmlStreamReader& reader = *static_cast<XmlStreamReader*>(context);
-        reader.m_stream.read(buffer, len);
+        try {
+            reader.m_stream.read(buffer, len);
+        } catch (...) {
+            // an exception must not go through libxml2: the failure is reported by the state of the stream
+        }
 
-        return static_cast<int>(reader.m_stream.gcount());
+        return reader.m_stream.bad() ? -1 : static_cast<int>(reader.m_stream.gcount());
     };
 
     auto closeCallback = [](void* /*context*/) {
-- 
2.43.0


From d7b4b068fc436ef21422e610f84ddff8c2643163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:50 +0000
Subject: [PATCH 64/66] fix: read the texts whatever their lexical form: empty,
 blank, with CDATA sections or comments

---
 src/xml/XmlStreamReader.cpp | 40 +++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 1702a9f..b89d2d1 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -95,6 +95,15 @@ static double toDouble(const std::string& attributeValue) {
     }
 }
 
+static bool isCharacters(int nodeType) {
+    return nodeType == XML_READER_TYPE_TEXT || nodeType == XML_READER_TYPE_CDATA;
+}
+
+static std::string getValue(xmlTextReader& reader) {
+    XmlString value(xmlTextReaderValue(&reader));
+    return value ? XML2S(value.get()) : "";
+}
+
 void checkNodeType(xmlTextReader& reader, const xmlReaderTypes& expected) {
     int nodeType = xmlTextReaderNodeType(&reader);
     if (nodeType != expected) {
@@ -342,8 +351,27 @@ int XmlStreamReader::next() const {
 }
 
 std::string XmlStreamReader::readCharacters() const {
-    xmlTextReaderRead(m_reader.get());
-    return getText();
+    std::string text;
+    const std::string& elementName = getLocalName();
+    if (xmlTextReaderIsEmptyElement(m_reader.get()) == 1) {
+        return text;
+    }
+
+    // the text may be empty, blank, or split by comments and CDATA sections
+    while (xmlTextReaderRead(m_reader.get()) == 1) {
+        int nodeType = getCurrentNodeType();
+        if (nodeType == XML_READER_TYPE_END_ELEMENT) {
+            return text;
+        }
+        if (nodeType == XML_READER_TYPE_ELEMENT) {
+            throw XmlStreamException(stdcxx::format("Unexpected element <%1%> in the text of <%2%>", getLocalName(), elementName));
+        }
+        if (isCharacters(nodeType) || nodeType == XML_READER_TYPE_WHITESPACE || nodeType == XML_READER_TYPE_SIGNIFICANT_WHITESPACE) {
+            text += getValue(*m_reader);
+        }
+    }
+
+    throw XmlStreamException(stdcxx::format("Unexpected end of file: expecting %1%", elementName));
 }
 
 std::string XmlStreamReader::readUntilEndElement(const std::string& elementName) const {
@@ -366,8 +394,8 @@ std::string XmlStreamReader::readUntilEndElement(const std::string& elementName,
     int res = xmlTextReaderRead(m_reader.get());
     int nodeType = getCurrentNodeType();
     std::string name = getLocalName();
-    if (nodeType == XML_READER_TYPE_TEXT) {
-        text = getText();
+    if (isCharacters(nodeType)) {
+        text += getValue(*m_reader);
     }
 
     while (res == 1 && (nodeType != XML_READER_TYPE_END_ELEMENT || name != elementName)) {
@@ -378,8 +406,8 @@ std::string XmlStreamReader::readUntilEndElement(const std::string& elementName,
         res = xmlTextReaderRead(m_reader.get());
         nodeType = getCurrentNodeType();
         name = getLocalName();
-        if (nodeType == XML_READER_TYPE_TEXT) {
-            text = getText();
+        if (isCharacters(nodeType)) {
+            text += getValue(*m_reader);
         }
     }
 
-- 
2.43.0


From f2f79d4a4147088ef564425dbbcd5b7de4abcb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:38 +0000
Subject: [PATCH 65/66] fix: skip the processing instructions before the root
 element

---
 src/xml/XmlStreamReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index b89d2d1..ff7072c 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -429,7 +429,8 @@ void XmlStreamReader::readUntilNextElement() const {
 }
 
 void XmlStreamReader::skipComments() const {
-    while (getCurrentNodeType() == XML_READER_TYPE_COMMENT) {
+    // the processing instructions have no more meaning than the comments
+    while (getCurrentNodeType() == XML_READER_TYPE_COMMENT || getCurrentNodeType() == XML_READER_TYPE_PROCESSING_INSTRUCTION) {
         next();
     }
 }
-- 
2.43.0


From bc33ebc4e1825b5dcb9da2edb538b8838c394710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:38 +0000
Subject: [PATCH 66/66] fix: leave nothing of an extension library which is
 refused

---
 src/iidm/ExtensionProviders.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/iidm/ExtensionProviders.cpp b/src/iidm/ExtensionProviders.cpp
index c3b1006..7e53eb4 100644
--- a/src/iidm/ExtensionProviders.cpp
+++ b/src/iidm/ExtensionProviders.cpp
@@ -102,8 +102,19 @@ void ExtensionProviders<T, Dummy>::loadLibrary(const boost::filesystem::path& li
             if (library.has(getSymbolName())) {
                 const auto& createSerializers = boost::dll::import_alias<std::vector<std::unique_ptr<T>>()>(library, getSymbolName());
                 std::vector<std::unique_ptr<T>> serializers = createSerializers();
-                for (auto& it : serializers) {
-                    registerExtension(std::move(it), libraryPath);
+                std::vector<std::string> registeredExtensions;
+                try {
+                    for (auto& it : serializers) {
+                        const std::string extensionName = it->getExtensionName();
+                        registerExtension(std::move(it), libraryPath);
+                        registeredExtensions.push_back(extensionName);
+                    }
+                } catch (...) {
+                    // the library is about to be unloaded: nothing of it can stay registered
+                    for (const std::string& extensionName : registeredExtensions) {
+                        m_providers.erase(extensionName);
+                    }
+                    throw;
                 }
                 m_loadedLibraries.insert(std::make_pair(libraryPath, library));
             } else {
-- 
2.43.0

