From ea04f1825b63cb322c636e9416d06f9dfb60654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 01/17] fix: forget cached connection sets when schedules or
 scenarios are refreshed

The per-scenario connection sets hold references into the trips and
connections that updateSchedules replaces, so a scenario queried before
a refresh was answered from freed memory afterwards.
---
 include/connection_cache.hpp |  4 ++++
 src/connection_cache.cpp     | 11 +++++++++++
 src/transit_data.cpp         | 17 +++++++++++------
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/connection_cache.hpp b/include/connection_cache.hpp
index 5ed4e2d..3ca8de5 100644
--- a/include/connection_cache.hpp
+++ b/include/connection_cache.hpp
@@ -28,6 +28,8 @@ class ScenarioConnectionCache {
     
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const = 0;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache) = 0;
+    // Forget all cached sets, to be called when the data they refer to changes
+    virtual void clear() = 0;
 };
 
 /**
@@ -45,6 +47,7 @@ class ScenarioConnectionCacheOne : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
   mutable std::shared_mutex mutex; //Reader/Writer locking
@@ -68,6 +71,7 @@ class ScenarioConnectionCacheAll : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
     mutable std::shared_mutex mutex; //Reader/Writer locking
diff --git a/src/connection_cache.cpp b/src/connection_cache.cpp
index 87c9959..02f0882 100644
--- a/src/connection_cache.cpp
+++ b/src/connection_cache.cpp
@@ -22,6 +22,12 @@ namespace TrRouting {
     lastConnection = cache;
   }
 
+  void ScenarioConnectionCacheOne::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    lastUuid.reset();
+    lastConnection.reset();
+  }
+
   // ScenarioConnectionCacheAll
   std::optional<std::shared_ptr<ConnectionSet>> ScenarioConnectionCacheAll::get(boost::uuids::uuid uuid) const {
     std::shared_lock lock(mutex); //Sharing lock when reading
@@ -39,4 +45,9 @@ namespace TrRouting {
     std::unique_lock lock(mutex); //Exclusive lock when writing
     connectionSets[uuid] = cache;
   }
+
+  void ScenarioConnectionCacheAll::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    connectionSets.clear();
+  }
 }
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 587bc16..d8d8cc6 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -23,12 +23,7 @@ namespace TrRouting {
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
     dataFetcher(fetcher)
   {
-    DataStatus loadStatus = loadAllData();
-    if (loadStatus != DataStatus::READY) {
-      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
-      //throw std::exception("Incomplete transit data");
-      spdlog::error("TransitData loading had error, object will not be valid");
-    }
+    // Created before loading, as the update functions clear it
     if (cacheAllScenarios) {
       scenarioConnectionCache = new ScenarioConnectionCacheAll();
       spdlog::info("Will cache all connectionSets");
@@ -36,6 +31,12 @@ namespace TrRouting {
       scenarioConnectionCache = new ScenarioConnectionCacheOne();
       spdlog::info("Will cache one connectionSet");
     }
+    DataStatus loadStatus = loadAllData();
+    if (loadStatus != DataStatus::READY) {
+      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
+      //throw std::exception("Incomplete transit data");
+      spdlog::error("TransitData loading had error, object will not be valid");
+    }
   }
 
   TransitData::~TransitData() {
@@ -127,11 +128,15 @@ namespace TrRouting {
 
   int TransitData::updateScenarios(std::string customPath)
   {
+    // The cached sets were computed from the previous scenarios
+    scenarioConnectionCache->clear();
     return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
   }
 
   int TransitData::updateSchedules(std::string customPath)
   {
+    // The cached sets refer to the trips and connections that are about to be replaced
+    scenarioConnectionCache->clear();
     int ret =  dataFetcher.getSchedules(
       trips,
       getLines(),
-- 
2.43.0


From 98dba6386ca9ab26fd4d442ddad2c3595fe7d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 02/17] fix: use the current data status in request handlers

The status was read once at start-up, so after an /updateCache that made
the data ready (or not ready) requests were still answered as before.
---
 .../src/transit_routing_http_server.cpp           | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 67cc566..58bb61a 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -122,9 +122,6 @@ int main(int argc, char** argv) {
 
   spdlog::info("preparing calculator...");
   TransitData transitData(*fetcher, programOptions.cacheAllConnectionSets);
-  //TODO We wanted to handle error in the constructor, but later part of this code expect a dataStatus
-  // leaving as a todo
-  DataStatus dataStatus = transitData.getDataStatus();
 
   // Selection which geofilter to use. OSRM is the default one. Euclidean mostly used for debugging and testing
   GeoFilter *geoFilter = 0;
@@ -299,10 +296,10 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int routeRequestId = 0;
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -369,11 +366,11 @@ int main(int argc, char** argv) {
 
   // Request a summary of lines data for a route
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
-  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int summaryRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -440,11 +437,11 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int accessibilityRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
-- 
2.43.0


From 6c7af66f09aa0bf662d8ef977d7005e56817e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 03/17] fix: make the request id counters atomic

They are incremented by all server threads at once.
---
 .../src/transit_routing_http_server.cpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 58bb61a..ecb2983 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -4,6 +4,7 @@
 //Added for the json-example
 #define BOOST_SPIRIT_THREADSAFE
 
+#include <atomic>
 #include <vector>
 #include <algorithm>
 #include <string>
@@ -298,7 +299,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int routeRequestId = 0;
+    static std::atomic<int> routeRequestId {0};
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
@@ -368,7 +369,7 @@ int main(int argc, char** argv) {
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
   server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int summaryRequestId = 0;
+    static std::atomic<int> summaryRequestId {0};
 
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
@@ -439,7 +440,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int accessibilityRequestId = 0;
+    static std::atomic<int> accessibilityRequestId {0};
 
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
-- 
2.43.0


From e7091072f41c76253139075b37f1640203ddc77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 04/17] fix: use the requested minimum waiting time in arrival
 accessibility node times

---
 connection_scan_algorithm/src/reverse_journey.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 218a32f..32ad0f6 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -322,9 +322,8 @@ namespace TrRouting
       }
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
-        //TODO Should check taht MinWaiting is not -1 or use OrDefault(0)
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTime();
+        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
-- 
2.43.0


From 8ec2e981c87c60b4bc63b0854d4f469a15efa366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 05/17] fix: compare access boardings with the same minimum
 waiting in reverse calculation

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a1d20c..54aad70 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -149,7 +149,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      || 
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {                    
@@ -346,7 +346,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      ||
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {
-- 
2.43.0


From c255163502ae8a119ae5e1443d9ab19eef6df751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 06/17] fix: keep optimised journeys consistent: transfer of
 the right step, no leftover steps

---
 .../src/optimize_journey.cpp                  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/connection_scan_algorithm/src/optimize_journey.cpp b/connection_scan_algorithm/src/optimize_journey.cpp
index ff60bc9..fc53b06 100644
--- a/connection_scan_algorithm/src/optimize_journey.cpp
+++ b/connection_scan_algorithm/src/optimize_journey.cpp
@@ -209,15 +209,10 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(1);
-              if (toJourneyStepIdx - fromJourneyStepIdx == 1)
-              {
-                journey.erase(journey.begin() + toJourneyStepIdx);
-              }
-              else if (toJourneyStepIdx - fromJourneyStepIdx > 1) // could not split correctly...
-              {
-                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
-              }
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
+              // the transfer stored on a step follows its exit: what followed the last removed step now follows this one
+              journey[fromJourneyStepIdx].copyTransferTimeDistance(journey[toJourneyStepIdx]);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx + 1);
 
               break;
             }
@@ -246,7 +241,8 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(2);
               journey[toJourneyStepIdx].setFinalEnterConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0); // same node transfer after the exit of the from step
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -275,7 +271,8 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(3);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0); // same node transfer after the exit of the from step
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -321,6 +318,9 @@ namespace TrRouting
                 usedOptimizationCases.push_back(4);
                 journey[fromJourneyStepIdx].setFinalExitConnection(exitConnection.value());
                 journey[toJourneyStepIdx].setFinalEnterConnection(connection);
+                journey[fromJourneyStepIdx].setTransferTimeDistance(0,0); // same node transfer after the exit of the from step
+                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
+                break;
               }
               else
               {
-- 
2.43.0


From 57a3c1f9a994e8f7412045b402e0a5c60eeb0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 07/17] fix: keep the connections hour cache within its 32
 hours

---
 src/connection_set.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 13c04b5..e49b791 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -10,8 +10,11 @@ namespace TrRouting {
 
   std::vector<std::reference_wrapper<const Connection>>::const_iterator ConnectionSet::getForwardConnectionsBeginAtDepartureHour(int hour) const
   {
-    if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
+    if (hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
       return forwardConnections.cend();
+    } else if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR - 1) {
+      // The cache ends there, start from its last hour
+      return forwardConnectionsBeginIteratorCache[CONNECTION_ITERATOR_CACHE_END_HOUR - 1];
     }
 
     return forwardConnectionsBeginIteratorCache[hour];
@@ -40,7 +43,7 @@ namespace TrRouting {
          ite++) {
       // We can have a gap of multiple hours between 2 connections, so the current iterator
       // can be valid for multiple hour slots
-      while ((*ite).get().getDepartureTime() >= currentHour * 3600) {
+      while (currentHour < CONNECTION_ITERATOR_CACHE_END_HOUR && (*ite).get().getDepartureTime() >= currentHour * 3600) {
         forwardConnectionsBeginIteratorCache.push_back(ite);
         currentHour++;
       }
-- 
2.43.0


From 9d4542e837515e85a69fb94b28cadbbb1d836c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 08/17] fix: survive inconsistent trips and broken references
 in line schedule files

---
 src/trips_and_connections_cache_fetcher.cpp | 46 +++++++++++++++++----
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b1dfb94..808b01a 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -77,7 +77,34 @@ namespace TrRouting
               pathUuid     = uuidGenerator(pathUuidStr);
               Path &path = paths.at(pathUuid);
               
-              trips.emplace(tripUuid, Trip(tripUuid,
+              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
+              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
+              auto canBoards             = capnpTrip.getNodesCanBoard();
+              auto canUnboards           = capnpTrip.getNodesCanUnboard();
+              nodeTimesCount             = arrivalTimesSeconds.size();
+              if (nodeTimesCount == 0
+                  || nodeTimesCount > path.nodesRef.size()
+                  || departureTimesSeconds.size() < nodeTimesCount
+                  || canBoards.size() < nodeTimesCount
+                  || canUnboards.size() < nodeTimesCount)
+              {
+                spdlog::error("Ignoring trip {} in {}: its stop times do not match its path", tripUuidStr, cacheFilePath);
+                continue;
+              }
+              bool chronological = true;
+              for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
+              {
+                chronological = chronological
+                  && departureTimesSeconds[nodeTimeI] <= arrivalTimesSeconds[nodeTimeI + 1]
+                  && (nodeTimeI == 0 || arrivalTimesSeconds[nodeTimeI] <= departureTimesSeconds[nodeTimeI]);
+              }
+              if (!chronological)
+              {
+                spdlog::error("Ignoring trip {} in {}: its stop times are not in chronological order", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
+              auto inserted = trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
                                            path,
@@ -86,17 +113,17 @@ namespace TrRouting
                                            line.allowSameLineTransfers,
                                            capnpTrip.getTotalCapacity(),
                                            capnpTrip.getSeatedCapacity()));
+              if (!inserted.second)
+              {
+                spdlog::error("Ignoring trip {} in {}: another trip has the same identifier", tripUuidStr, cacheFilePath);
+                continue;
+              }
               //Current trip
-              Trip & trip = trips.at(tripUuid);
+              Trip & trip = inserted.first->second;
               
               // TODO This should probably be done in the Trip constructor (setting the back reference)
               path.tripsRef.push_back(trip);
 
-              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
-              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
-              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
-              auto canBoards             = capnpTrip.getNodesCanBoard();
-              auto canUnboards           = capnpTrip.getNodesCanUnboard();
               trip.connectionDepartureTimes.resize(nodeTimesCount);
               // nodeTimesCount - 1, since we process node pairs, we have to stop and the second from last
               for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
@@ -131,6 +158,11 @@ namespace TrRouting
         // TODO Do something about faulty cache files?
         spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.getDescription().cStr());
       }
+      catch (const std::exception& e)
+      {
+        // for example an unknown service or path, or an invalid uuid
+        spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.what());
+      }
 
       close(fd);
     }
-- 
2.43.0


From 17ba572af10f9fd525754253c9bf1c077a743d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 09/17] fix: survive invalid transferable nodes in stop files

---
 src/nodes_cache_fetcher.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index a5cd220..35b4a82 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <vector>
 #include <numeric>
+#include <stdexcept>
 #include <errno.h>
 #include <fcntl.h>
 #include <kj/exception.h>
@@ -130,6 +131,12 @@ namespace TrRouting
         std::vector<NodeTimeDistance> transferableNodes;
         std::vector<NodeTimeDistance> reverseTransferableNodes;
 
+        if (capnpT.getTransferableNodesTravelTimes().size() < transferableNodesCount
+            || capnpT.getTransferableNodesDistances().size() < transferableNodesCount)
+        {
+          throw std::out_of_range("missing travel times or distances of transferable nodes");
+        }
+
         for (unsigned int j = 0; j < transferableNodesCount; j++)
         {
           std::string nodeUuidStr {capnpT.getTransferableNodesUuids()[j]};
@@ -145,6 +152,10 @@ namespace TrRouting
           
           int travelTime = capnpT.getTransferableNodesTravelTimes()[j];
           int distance = capnpT.getTransferableNodesDistances()[j];
+          if (travelTime < 0) {
+            spdlog::error("Invalid travel time {} to node {} in file {}", travelTime, nodeUuidStr, nodeCacheFileNamePath);
+            continue;
+          }
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
@@ -168,6 +179,13 @@ namespace TrRouting
         close(fd);
         return -EBADMSG;
       }
+      catch (const std::exception& e)
+      {
+        // for example an invalid uuid
+        spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.what());
+        close(fd);
+        return -EINVAL;
+      }
       close(fd);
     }
 
-- 
2.43.0


From 62c74a92836bfd7368360ddb58469780a85a7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 10/17] fix: do not read past the node lists of od trips

---
 src/od_trips_cache_fetcher.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index e907b24..17b1d3a 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <vector>
 #include <fcntl.h>
+#include <stdexcept>
 #include <boost/uuid/string_generator.hpp>
 #include <capnp/serialize-packed.h>
 #include "cache_fetcher.hpp"
@@ -153,6 +154,10 @@ namespace TrRouting
 
             const unsigned int originNodesCount {capnpT.getOriginNodesUuids().size()};
             std::vector<NodeTimeDistance> originNodes;
+            if (capnpT.getOriginNodesTravelTimes().size() < originNodesCount || capnpT.getOriginNodesDistances().size() < originNodesCount)
+            {
+              throw std::out_of_range("missing travel times or distances of origin nodes");
+            }
             for (unsigned int j = 0; j < originNodesCount; j++)
             {
               std::string nodeUuid {capnpT.getOriginNodesUuids()[j]};
@@ -163,6 +168,10 @@ namespace TrRouting
 
             const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
             std::vector<NodeTimeDistance> destinationNodes;
+            if (capnpT.getDestinationNodesTravelTimes().size() < destinationNodesCount || capnpT.getDestinationNodesDistances().size() < destinationNodesCount)
+            {
+              throw std::out_of_range("missing travel times or distances of destination nodes");
+            }
             for (unsigned int j = 0; j < destinationNodesCount; j++)
             {
               std::string nodeUuid {capnpT.getDestinationNodesUuids()[j]};
-- 
2.43.0


From afa3b1eea6dbc05b76f0c468668508686f5e5145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 11/17] fix: name the missing or invalid place of accessibility
 requests

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index ecb2983..c1d2eab 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -92,9 +92,11 @@ std::string getResponseCode(ParameterException::Type type)
     case ParameterException::Type::MISSING_SCENARIO: return "MISSING_PARAM_SCENARIO";
     case ParameterException::Type::MISSING_ORIGIN: return "MISSING_PARAM_ORIGIN";
     case ParameterException::Type::MISSING_DESTINATION: return "MISSING_PARAM_DESTINATION";
+    case ParameterException::Type::MISSING_PLACE: return "MISSING_PARAM_PLACE";
     case ParameterException::Type::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP";
     case ParameterException::Type::INVALID_ORIGIN: return "INVALID_ORIGIN";
     case ParameterException::Type::INVALID_DESTINATION: return "INVALID_DESTINATION";
+    case ParameterException::Type::INVALID_PLACE: return "INVALID_PLACE";
     case ParameterException::Type::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA";
     default: return "PARAM_ERROR_UNKNOWN";
   }
-- 
2.43.0


From b9ad31cc1184838a7f5eb79de4c4053e3b4b93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 12/17] fix: name only the refreshed caches in /updateCache,
 answer unknown names with an error

---
 .../src/transit_routing_http_server.cpp          | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index c1d2eab..0a146dc 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -16,6 +16,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 #include <boost/algorithm/string.hpp>
+#include <nlohmann/json.hpp>
 
 #include "cache_fetcher.hpp"
 #include "calculation_time.hpp"
@@ -182,10 +183,10 @@ int main(int argc, char** argv) {
       }
     }
 
-    bool correctCacheName {false};
     //TODO Merge this and the preparations.cpp code
     for(std::string cacheName : cacheNames)
     {
+      bool correctCacheName {false};
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -251,22 +252,19 @@ int main(int argc, char** argv) {
         transitData.updateSchedules(customCacheDirectoryPath);
       }
 
-      //TODO This is incorrect if we have multiple name and the second one is wrong, correctCacheName is always true
       if (correctCacheName)
       {
-        cacheNamesStr += cacheName;
-        cacheNamesStr += ",";
+        cacheNamesStr += (cacheNamesStr.empty() ? "" : ",") + cacheName;
       }
     }
 
-    //TODO do this only if we had at least one correct name
     //Reinit some data after the update
     // TODO Just the schedules???
-    if (cacheNames.size() > 0)
+    if (!cacheNamesStr.empty())
     {
-      // Remove last ","
-      cacheNamesStr.pop_back();
-      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": \"" + customCacheDirectoryPath + "\"}";
+      // The path comes from the request, it has to be escaped
+      std::string pathJson = nlohmann::json(customCacheDirectoryPath).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": " + pathJson + "}";
     }
     else
     {
-- 
2.43.0


From 94fe60b055477f164a4004915ea75b16e9477b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 13/17] fix: do not cut the requested minimum waiting time to
 sixteen bits

---
 connection_scan_algorithm/src/forward_calculation.cpp | 4 ++--
 connection_scan_algorithm/src/reverse_calculation.cpp | 8 ++++----
 include/connection.hpp                                | 9 +++++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 2251bc8..5a5b4a2 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -209,7 +209,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 54aad70..8a5aa59 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -19,8 +19,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
+    int   journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
@@ -228,8 +228,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
+    int   journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/include/connection.hpp b/include/connection.hpp
index 1c6adde..7d3d013 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -1,6 +1,10 @@
 #ifndef TR_CONNECTION
 #define TR_CONNECTION
 
+#include <algorithm>
+
+#include "toolbox.hpp" //MAX_INT
+
 namespace TrRouting
 {
   class Node;
@@ -42,11 +46,12 @@ namespace TrRouting
     int getSequenceInTrip() const {return sequenceInTrip;}
     bool canTransferSameLine() const {return canTransferSameLineValue;}
     short getMinWaitingTime() const {return minWaitingTimeSeconds;}
-    short getMinWaitingTimeOrDefault(short defaultMinWaitingTime) const {
+    int getMinWaitingTimeOrDefault(int defaultMinWaitingTime) const {
       if (minWaitingTimeSeconds >= 0) {
         return minWaitingTimeSeconds;
       } else {
-        return defaultMinWaitingTime;
+        // Longer than any timetable is long enough, and it has to be added to and subtracted from times
+        return std::min(defaultMinWaitingTime, MAX_INT / 2);
       }
     }
 
-- 
2.43.0


From 9af4ed82dddc55f1fcb1304ac3d9ae433b37d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 14/17] fix: do not close zero-time loops in reverse journeys

---
 .../src/reverse_calculation.cpp               | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a5aa59..be0dac6 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -11,6 +11,23 @@
 
 namespace TrRouting
 {
+
+  // Returns true if following the current reverse steps from a node goes through another node.
+  // A step replacing one with the same time must not lead back to its own node, or the journey would never end.
+  static bool stepsLeadToNode(const Node & from, const Node & to, const std::vector<JourneyStep> & steps)
+  {
+    std::reference_wrapper<const Node> node = from;
+    while (node.get() != to)
+    {
+      const JourneyStep & step = steps.at(node.get().uid);
+      if (!step.hasConnections())
+      {
+        return false;
+      }
+      node = step.getFinalExitConnection().value().get().getArrivalNode();
+    }
+    return true;
+  }
     
   std::optional<std::tuple<int, std::reference_wrapper<const Node>>> Calculator::reverseCalculation(RouteParameters &parameters,
                                                                                                     std::unordered_map<Node::uid_t, JourneyStep> & reverseAccessJourneysSteps)
@@ -135,7 +152,10 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {                  
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid)
+                      ||
+                      (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds == nodesReverseTentativeTime.at(transferableNode.node.uid)
+                       && !stepsLeadToNode(currentTripQueryOverlay.exitConnection.value().get().getArrivalNode(), transferableNode.node, reverseJourneysSteps)))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
@@ -332,7 +352,10 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid)
+                      ||
+                      (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds == nodesReverseTentativeTime.at(transferableNode.node.uid)
+                       && !stepsLeadToNode(currentTripQueryOverlay.exitConnection.value().get().getArrivalNode(), transferableNode.node, reverseJourneysSteps)))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
-- 
2.43.0


From 2676f61dcde3635a21d232496301de4cb209d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 15/17] fix: ignore trips with stop times out of range

---
 src/trips_and_connections_cache_fetcher.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index 808b01a..17c782e 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -103,6 +103,13 @@ namespace TrRouting
                 spdlog::error("Ignoring trip {} in {}: its stop times are not in chronological order", tripUuidStr, cacheFilePath);
                 continue;
               }
+              // The calculations add waiting and walking times to those times, keep them far from the limits of int
+              if (nodeTimesCount > 1
+                  && (departureTimesSeconds[0] < 0 || arrivalTimesSeconds[nodeTimesCount - 1] > MAX_INT / 2))
+              {
+                spdlog::error("Ignoring trip {} in {}: its stop times are out of range", tripUuidStr, cacheFilePath);
+                continue;
+              }
 
               auto inserted = trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
-- 
2.43.0


From 34d14ffe026f573999a05cc70ef92beaad73c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 16/17] fix: load the remaining data when one cache file cannot
 be read

A server started with one unreadable file stopped loading there, while a cache
update goes on with the other data: both then answered differently.
---
 src/transit_data.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index d8d8cc6..b75a442 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -266,6 +266,9 @@ namespace TrRouting {
   
   DataStatus TransitData::loadAllData() {
     int ret = 0;
+    // Data that cannot be read does not prevent loading the others: what is
+    // missing is in the data status, as after a cache update
+    bool readError = false;
 
     spdlog::debug("preparing nodes, routes, trips, connections and footpaths...");
     
@@ -275,75 +278,79 @@ namespace TrRouting {
     // Ignore missing nodes file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateDataSources();
     // Ignore missing data sources file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     /* TODO #167
     ret = updateHouseholds();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     */
     ret = updatePersons();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateOdTrips();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     /* TODO #167
     ret = updatePlaces();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     */
     ret = updateAgencies();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateServices();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateLines();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updatePaths();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateScenarios();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateSchedules();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
 
+    if (readError)
+    {
+      return DataStatus::DATA_READ_ERROR;
+    }
     return getDataStatus();
   }
   
-- 
2.43.0


From f7e21e32b5ed78566c26ec969f045834a260a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 17/17] fix: count the transfer walking distance from zero

---
 connection_scan_algorithm/src/forward_journey.cpp | 2 +-
 connection_scan_algorithm/src/reverse_journey.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_journey.cpp b/connection_scan_algorithm/src/forward_journey.cpp
index 14fe112..89d644b 100644
--- a/connection_scan_algorithm/src/forward_journey.cpp
+++ b/connection_scan_algorithm/src/forward_journey.cpp
@@ -38,7 +38,7 @@ namespace TrRouting
       int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
       int totalDistance            { 0}; int distance               {-1};
       int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance   { 0};
-      int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance         { 0};
+      int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance         { 0};
       int accessWalkingTime      {-1};
       int transferTime             {-1}; int egressWalkingTime      {-1};
       int waitingTime              {-1}; int accessWaitingTime      {-1};
diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 32ad0f6..86bb2d9 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -31,7 +31,7 @@ namespace TrRouting
     int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
     int totalDistance            { 0}; int distance               {-1};
     int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance { 0};
-    int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance       { 0};
+    int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance       { 0};
     int accessWalkingTime      {-1};
     int transferTime             {-1}; int egressWalkingTime      {-1};
     int waitingTime              {-1}; int accessWaitingTime      {-1};
-- 
2.43.0

