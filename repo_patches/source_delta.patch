From 87732005ad397e130045b451072ee18a4a0ff9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:30 +0000
Subject: [PATCH 01/15] fix: subtract release time warp from net duration in
 DurationSegment::timeWarp

The time warp caused by a release time after the latest start was not
subtracted from the duration before the maximum duration constraint was
applied, so it was counted twice. Because finalised segments do account for
it, forward and backward concatenation disagreed, and the delta cost
evaluation of search moves was not exact.
---
 pyvrp/cpp/DurationSegment.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index 8853bdf..5013420 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -271,12 +271,13 @@ Duration DurationSegment::duration() const
 
 Duration DurationSegment::timeWarp(Duration maxDuration) const
 {
-    auto const timeWarp = cumTimeWarp_ + timeWarp_;
+    auto const timeWarp
+        = cumTimeWarp_ + timeWarp_
+          // Additional time warp from having to wait until release time.
+          + std::max<Duration>(releaseTime_ - startLate_, 0);
     auto const netDuration = duration() - timeWarp;
 
     return timeWarp
-           // Additional time warp from having to wait until release time.
-           + std::max<Duration>(releaseTime_ - startLate_, 0)
            // Max duration constraint applies only to net route duration,
            // subtracting existing time warp. Use ternary to avoid underflow.
            + (netDuration > maxDuration ? netDuration - maxDuration : 0);
-- 
2.43.0


From 2e58f1113512d8a3cde115bc73591bab2fbc5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:31 +0000
Subject: [PATCH 02/15] fix: preserve a route's fixed vehicle cost when
 pickling

The fixed vehicle cost was not part of the pickled state, so unpickled routes
(and the solutions containing them) reported zero fixed vehicle cost, and the
cost of such solutions changed.
---
 pyvrp/cpp/Route.cpp    | 2 ++
 pyvrp/cpp/Route.h      | 1 +
 pyvrp/cpp/bindings.cpp | 8 +++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..baf67ea 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -475,6 +475,7 @@ Route::Route(Schedule schedule,
              Duration startTime,
              Duration releaseTime,
              Duration slack,
+             Cost fixedVehicleCost,
              Cost prizes,
              size_t vehicleType,
              size_t numShipments)
@@ -494,6 +495,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..8e1e4d9 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -333,6 +333,7 @@ public:
           Duration startTime,
           Duration releaseTime,
           Duration slack,
+          Cost fixedVehicleCost,
           Cost prizes,
           size_t vehicleType,
           size_t numShipments);
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..168d96e 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -974,6 +974,7 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.startTime(),
                                       route.releaseTime(),
                                       route.slack(),
+                                      route.fixedVehicleCost(),
                                       route.prizes(),
                                       route.vehicleType(),
                                       route.numShipments());
@@ -998,9 +999,10 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Duration>(),          // start time
                     t[14].cast<pyvrp::Duration>(),          // release time
                     t[15].cast<pyvrp::Duration>(),          // slack
-                    t[16].cast<pyvrp::Cost>(),              // prizes
-                    t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[16].cast<pyvrp::Cost>(),              // fixed cost
+                    t[17].cast<pyvrp::Cost>(),              // prizes
+                    t[18].cast<size_t>(),                   // vehicle type
+                    t[19].cast<size_t>());                  // num shipments
 
                 return route;
             }))
-- 
2.43.0


From 44b0e5fd6a8dff1e0ade120ffe46b1d99f359ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:48 +0000
Subject: [PATCH 03/15] fix: preserve a solution's unplanned activities when
 pickling

The unplanned activities were not part of the pickled state, so unpickled
solutions reported that nothing was left unplanned.
---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 168d96e..784d199 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1133,10 +1133,12 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
+                using Unplanned = std::vector<pyvrp::Activity>;
 
                 Solution sol(
                     t[0].cast<size_t>(),            // num clients
@@ -1155,7 +1157,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<Unplanned>());                // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From f961199b079345478497a591f8817a7d65ba3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:27 +0000
Subject: [PATCH 04/15] fix: keep the iterated object alive while iterating
 over it

The iterators of routes and client groups did not keep the object they iterate
over alive, so iterating over a temporary read freed memory.
---
 pyvrp/cpp/bindings.cpp        | 6 ++++--
 pyvrp/cpp/search/bindings.cpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 784d199..83b04e0 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -477,7 +477,8 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](ClientGroup const &group)
             { return py::make_iterator(group.begin(), group.end()); },
-            py::return_value_policy::reference_internal)
+            py::return_value_policy::reference_internal,
+            py::keep_alive<0, 1>())  // keep group alive
         .def(
             "__str__",
             [](ClientGroup const &group) { return group.name; },
@@ -944,7 +945,8 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::return_value_policy::reference_internal,
+            py::keep_alive<0, 1>())  // keep route alive
         .def(
             "__getitem__",
             [](Route const &route, int idx)
diff --git a/pyvrp/cpp/search/bindings.cpp b/pyvrp/cpp/search/bindings.cpp
index a87d4d8..ad800f2 100644
--- a/pyvrp/cpp/search/bindings.cpp
+++ b/pyvrp/cpp/search/bindings.cpp
@@ -685,7 +685,8 @@ PYBIND11_MODULE(_search, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::return_value_policy::reference_internal,
+            py::keep_alive<0, 1>())  // keep route alive
         .def("__len__", &Route::size)
         .def("__str__",
              [](Route const &route)
-- 
2.43.0


From 1e1df4547539913489838badc312351c22382e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:20 +0000
Subject: [PATCH 05/15] fix: do not try to reduce the fleet to zero vehicles

Fleet minimisation raised a ValueError when a single vehicle suffices but the
demand-based lower bound is zero, and when a feasible solution uses no vehicle
at all.
---
 pyvrp/minimise_fleet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..fa91852 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -82,7 +82,9 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            # A fleet always has at least one vehicle.
+            num_used = max(best.num_routes(), 1)
+            feas_fleet = fleet.replace(num_available=num_used)
 
     return feas_fleet
 
@@ -95,8 +97,9 @@ def _lower_bound(data: ProblemData) -> int:
     # details.
 
     # Computes a bound based on packing delivery or pickup demands in the given
-    # vehicles over all load dimensions. The strongest bound is returned.
-    bound = 0
+    # vehicles over all load dimensions. The strongest bound is returned. This
+    # is at least one, since a fleet cannot be empty.
+    bound = 1
     for dim in range(data.num_load_dimensions):
         delivery = sum(c.delivery[dim] for c in data.clients())
         pickup = sum(c.pickup[dim] for c in data.clients())
-- 
2.43.0


From 8f33794b17ec6bfcd81bd93a0c10f9021aea589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:29 +0000
Subject: [PATCH 06/15] fix: leave a search route unchanged when inserting a
 reload depot fails

Inserting a reload depot beyond the vehicle's maximum number of trips raises,
but only after the depot was already added to the route's depots, after which
the route was left in an inconsistent state.
---
 pyvrp/cpp/search/Route.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index a5e992e..4cea56f 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -95,6 +95,10 @@ void Route::insert(size_t idx, Node *node)
     {
     case Activity::ActivityType::DEPOT:  // insert copy into owned memory
     {
+        if (numTrips() >= maxTrips())
+            throw std::invalid_argument(
+                "Vehicle cannot perform this many trips.");
+
         if (depots_.size() == depots_.capacity())  // then we reallocate and
         {                                          // must update references
             depots_.reserve(depots_.size() + 1);
@@ -110,9 +114,6 @@ void Route::insert(size_t idx, Node *node)
         break;
     }
 
-    if (numTrips() > maxTrips())
-        throw std::invalid_argument("Vehicle cannot perform this many trips.");
-
     nodes.insert(nodes.begin() + idx, node);
     node->assign(this, idx, nodes[idx - 1]->trip());
 
-- 
2.43.0


From 9fb4760e800d28d7dbcbfd44305635dd4ab0eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 07/15] fix: keep penalties floating point when given integer
 values

Integer initial penalties combined with integer penalty bounds resulted in an
integer array, so that each later penalty update was truncated.
---
 pyvrp/PenaltyManager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvrp/PenaltyManager.py b/pyvrp/PenaltyManager.py
index 8987eea..6be3709 100644
--- a/pyvrp/PenaltyManager.py
+++ b/pyvrp/PenaltyManager.py
@@ -157,8 +157,11 @@ class PenaltyManager:
         params: PenaltyParams = PenaltyParams(),
     ):
         self._params = params
+
+        # Explicit floating point type, because otherwise integer initial and
+        # bound values result in an integer array, truncating later updates.
         self._penalties = np.clip(
-            initial_penalties[0] + list(initial_penalties[1:]),
+            np.array([*initial_penalties[0], *initial_penalties[1:]], float),
             params.min_penalty,
             params.max_penalty,
         )
-- 
2.43.0


From 941b5cf9f9966d8cebd733e9d2cc6cf8fe553f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:56 +0000
Subject: [PATCH 08/15] fix: do not share a default perturbation manager
 between local searches

---
 pyvrp/search/LocalSearch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyvrp/search/LocalSearch.py b/pyvrp/search/LocalSearch.py
index 8aa7e5a..61876d3 100644
--- a/pyvrp/search/LocalSearch.py
+++ b/pyvrp/search/LocalSearch.py
@@ -31,6 +31,7 @@ class LocalSearch:
         granular neighbourhood.
     perturbation_manager
         Perturbation manager that handles perturbation during each invocation.
+        A new manager with default parameters is used when not provided.
     """
 
     def __init__(
@@ -38,8 +39,13 @@ class LocalSearch:
         data: ProblemData,
         rng: RandomNumberGenerator,
         neighbours: dict[Activity, list[Activity]],
-        perturbation_manager: PerturbationManager = PerturbationManager(),
+        perturbation_manager: PerturbationManager | None = None,
     ):
+        if perturbation_manager is None:
+            # Not a default argument, because the manager has state of its own
+            # that must not be shared between different local search objects.
+            perturbation_manager = PerturbationManager()
+
         self._ls = _LocalSearch(data, neighbours, perturbation_manager)
         self._rng = rng
 
-- 
2.43.0


From 7d2e17777cc061c57c6a60f59249cbe00568e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:15 +0000
Subject: [PATCH 09/15] fix: Model.from_data should not share its groups with
 the data

---
 pyvrp/Model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyvrp/Model.py b/pyvrp/Model.py
index d2323f0..78dda70 100644
--- a/pyvrp/Model.py
+++ b/pyvrp/Model.py
@@ -203,11 +203,18 @@ class Model:
                 for to in range(data.num_locations)
             ]
 
+        # Groups are copied because, unlike the other fields, these change when
+        # clients are added to the model, which should not change the data.
+        groups = [
+            ClientGroup(group.clients, group.required, name=group.name)
+            for group in data.groups()
+        ]
+
         self = Model()
         self._locations = locs
         self._clients = data.clients()
         self._depots = data.depots()
-        self._groups = data.groups()
+        self._groups = groups
         self._shipments = data.shipments()
         self._profiles = profiles
         self._vehicle_types = data.vehicle_types()
-- 
2.43.0


From c09131f0578cbf202227fedc815e835cf98d0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:19 +0000
Subject: [PATCH 10/15] fix: evaluate release times after a reload depot's
 closing time consistently

---
 pyvrp/cpp/Route.cpp        |  4 +++-
 pyvrp/cpp/search/Route.cpp | 14 +++++++++-----
 pyvrp/cpp/search/Route.h   | 14 ++++++++++++--
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index baf67ea..022e467 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -164,7 +164,9 @@ void Route::setSchedule(ProblemData const &data, Activities const &activities)
             ds = DurationSegment::merge(edgeDur, {depot, depotService}, ds);
             releaseTimes.insert(releaseTimes.begin(), ds.releaseTime());
 
-            ds = ds.finaliseFront();
+            // The previous trip must also end within the depot's time window,
+            // which is not implied when that is before the release time.
+            ds = DurationSegment::merge({depot, 0}, ds.finaliseFront());
             nextLoc = depot.location;
             break;
         }
diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index 4cea56f..4baccef 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -294,9 +294,11 @@ void Route::update()
         if (nodes[prev]->isReloadDepot())
         {
             // Then we need to first account for depot service before we merge
-            // with the idx segment.
+            // with the idx segment. That service starts within the depot's
+            // time window, also when there is a release time on this trip.
             auto const &depot = data.depot(nodes[prev]->idx());
-            before = DurationSegment::merge(before, {depot.serviceDuration});
+            before = DurationSegment::merge(before,
+                                            {depot, depot.serviceDuration});
         }
 
         auto const edgeDur = durations(locations[prev], locations[idx]);
@@ -308,9 +310,11 @@ void Route::update()
     for (size_t next = nodes.size() - 1; next != 0; --next)
     {
         auto const idx = next - 1;
-        auto after = nodes[next]->isReloadDepot()
-                         ? durAfter[next].finaliseFront()
-                         : durAfter[next];
+        auto after = durAfter[next];
+        if (nodes[next]->isReloadDepot())
+            // The trip before next must also end within the depot's time
+            // window, which is not implied when that's before a release time.
+            after = DurationSegment::merge(durAt[next], after.finaliseFront());
 
         if (nodes[idx]->isReloadDepot())
         {
diff --git a/pyvrp/cpp/search/Route.h b/pyvrp/cpp/search/Route.h
index 058d654..c92b85b 100644
--- a/pyvrp/cpp/search/Route.h
+++ b/pyvrp/cpp/search/Route.h
@@ -1232,6 +1232,16 @@ std::pair<Cost, Duration> Route::Proposal<Segments...>::duration() const
     auto const profile = route()->profile();
     auto const &matrix = data.durationMatrix(profile);
 
+    // After finalising at a reload depot, the trip before it must also end
+    // within the depot's time window, which is not implied when that window
+    // closes before the release time of the finalised trip.
+    auto const finalise = [&](DurationSegment const &ds, auto const &activity)
+    {
+        assert(activity.isDepot());
+        DurationSegment const depotDS = {data.depot(activity.idx()), 0};
+        return DurationSegment::merge(depotDS, ds.finaliseFront());
+    };
+
     // Finalising is expensive with duration segments. However, finaliseFront is
     // significantly less expensive than finaliseBack. To use it, we iterate the
     // segments in reverse (right to left, rather than default left to right).
@@ -1241,7 +1251,7 @@ std::pair<Cost, Duration> Route::Proposal<Segments...>::duration() const
         auto firstLoc = segment.front().location();
 
         if (segment.startsAtReloadDepot())
-            ds = ds.finaliseFront();
+            ds = finalise(ds, segment.front().activity());
 
         auto const merge = [&](auto const &self, auto &&other, auto &&...args)
         {
@@ -1273,7 +1283,7 @@ std::pair<Cost, Duration> Route::Proposal<Segments...>::duration() const
                     // Only when the segment contains more than just the depot.
                     // Checking for size speeds up the common case of a reload
                     // depot insertion.
-                    ds = ds.finaliseFront();
+                    ds = finalise(ds, other.front().activity());
 
                 self(self, std::forward<decltype(args)>(args)...);
             }
-- 
2.43.0


From f71228141a8922bc29ff110b9e969a47e2e024b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:44 +0000
Subject: [PATCH 11/15] fix: restart after every iteration when
 num_iters_no_improvement is zero

---
 pyvrp/IteratedLocalSearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/IteratedLocalSearch.py b/pyvrp/IteratedLocalSearch.py
index a7a88b9..4d2850e 100644
--- a/pyvrp/IteratedLocalSearch.py
+++ b/pyvrp/IteratedLocalSearch.py
@@ -223,7 +223,7 @@ class IteratedLocalSearch:
         while not stop(cost_eval.cost(best)):
             iters += 1
 
-            if iters_no_improvement == self._params.num_iters_no_improvement:
+            if iters_no_improvement >= self._params.num_iters_no_improvement:
                 print_progress.restart()
                 history.clear()
 
-- 
2.43.0


From 4e6af1477599eef0f19f2f01053a2e8f4de09fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 12/15] fix: delivery locations of shipments in instances with
 multiple depots

The indices of paired pickup and delivery locations count all locations, so
they should not be offset by the number of depots.
---
 pyvrp/read.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index e11bea3..0293c98 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -574,7 +574,6 @@ class _ProblemDataBuilder:
         return [ClientGroup(group) for group in groups]
 
     def _shipments(self) -> list[Shipment]:
-        num_depots = self.parser.num_depots
         data = self.parser.shipments()
 
         shipments = []
@@ -582,11 +581,11 @@ class _ProblemDataBuilder:
             *_, pick_idx, deliv_idx = pickup_data
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
-                delivery_data = data[deliv_idx - num_depots]
+                delivery_data = data[deliv_idx - 1]
                 shipments.append(
                     Shipment(
                         pickup_location=idx,
-                        delivery_location=deliv_idx - num_depots,
+                        delivery_location=deliv_idx - 1,  # zero-indexed
                         pickup_tw_early=pickup_data[1],
                         pickup_tw_late=pickup_data[2],
                         pickup_service_duration=pickup_data[3],
-- 
2.43.0


From ce293a4caf5abae8ecebf8192237c81ddebebb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 13/15] fix: reading shipments with fractional time windows or
 service durations

The paired location indices are then also floating point values, which are not
valid indices.
---
 pyvrp/read.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 0293c98..989faa5 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -578,7 +578,8 @@ class _ProblemDataBuilder:
 
         shipments = []
         for idx, pickup_data in enumerate(data):
-            *_, pick_idx, deliv_idx = pickup_data
+            # The indices are not integers when any of the other data is not.
+            pick_idx, deliv_idx = map(int, pickup_data[-2:])
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
                 delivery_data = data[deliv_idx - 1]
@@ -593,7 +594,7 @@ class _ProblemDataBuilder:
                         delivery_tw_late=delivery_data[2],
                         delivery_service_duration=delivery_data[3],
                         amount=[pickup_data[0]],
-                        name=f"{delivery_data[-2]} -> {deliv_idx}",
+                        name=f"{int(delivery_data[-2])} -> {deliv_idx}",
                     )
                 )
 
-- 
2.43.0


From a737853dbe0d66139d9222845eaee6c4477afab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 14/15] fix: raise the documented ValueError when the problem
 size is missing

---
 pyvrp/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 989faa5..65cbf5d 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -161,6 +161,9 @@ class _InstanceParser:
 
     @property
     def num_locations(self) -> int:
+        if "dimension" not in self.instance:
+            raise ValueError("Source file should contain the problem size.")
+
         return self.instance["dimension"]
 
     @property
-- 
2.43.0


From f53cbea8481c416fd8ecdd8f47b7aa7f772154a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:17 +0000
Subject: [PATCH 15/15] fix: reading instances with multiple load dimensions
 but no capacities

Capacities are documented to be unconstrained when they are not given.
---
 pyvrp/read.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 65cbf5d..aa16f91 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -267,7 +267,9 @@ class _InstanceParser:
 
     def capacities(self) -> np.ndarray:
         if "capacity" not in self.instance:
-            return np.full(self.num_vehicles, _INT_MAX)
+            # Capacities are then unconstrained, in each load dimension.
+            num_dims = max(self.demands()[0].size, self.backhauls()[0].size)
+            return np.full((self.num_vehicles, num_dims), _INT_MAX)
 
         capacities = self.instance["capacity"]
 
-- 
2.43.0

