From 7b80ccb03f8f6bfc140c8c34bb0a82bc445e0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 001/106] fix: reserve a place only in the input queue a
 product is delivered to

With several internal input queues a place was promised in every one of
them although the product is put into the first one only, so that the
other queues ended up full for ever.
---
 prodsys/simulation/resources.py | 4 ++--
 prodsys/simulation/router.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 54c3a51..aecc7f3 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -488,8 +488,8 @@ class ProductionResource(Resource):
 
     def reserve_internal_input_queues(self):
         internal_queues = [q for q in self.input_queues if not isinstance(q, store.Store)]
-        for internal_queue in internal_queues:
-            internal_queue.reserve()
+        # products are always delivered to the first internal input queue
+        internal_queues[0].reserve()
 
     def adjust_pending_put_of_output_queues(self, batch_size: int = 1):
         internal_queues = [q for q in self.output_queues if not isinstance(q, store.Store)]
diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index d2475eb..acc1b0d 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -325,8 +325,8 @@ class Router:
         if not transport_requests:
             return
         routed_transport_request = transport_requests.pop(0)
-        for queue in sink.input_queues:
-            queue.reserve()
+        # products are always delivered to the first input queue of the sink
+        sink.input_queues[0].reserve()
         return routed_transport_request
 
     def route_product_to_storage(
-- 
2.43.0


From 6e8d284b3431d40ca780f1fc9df30527fc98e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 002/106] fix: support several output queues of a production
 resource

A finished product is put into one output queue, but the compensating
reservation was made in all of them and the transport waited for the
product in all of them, so that it waited for ever.
---
 prodsys/simulation/control.py   | 6 ++++--
 prodsys/simulation/resources.py | 8 +++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a69c5a5..c1a8257 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -288,7 +288,7 @@ class ProductionController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, [product])
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues() # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for next_product in [product]:
                 if not resource.got_free.triggered:
@@ -539,7 +539,7 @@ class BatchController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues(batch_size) # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for product in products:
                 for next_product in [product]:
@@ -631,6 +631,8 @@ class TransportController(Controller):
         if (isinstance(resource, resources.ProductionResource) or isinstance(resource, source.Source)):
             internal_queues = [queue for queue in resource.output_queues if not isinstance(queue, store.Store)]
             for queue in internal_queues:
+                if product.product_data not in queue.items:
+                    continue
                 events.append(queue.get(filter=lambda x: x is product.product_data))
             if not events:
                 raise ValueError(f"No product in internal queue {resource.data.ID}")
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index aecc7f3..4d7547a 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -491,11 +491,9 @@ class ProductionResource(Resource):
         # products are always delivered to the first internal input queue
         internal_queues[0].reserve()
 
-    def adjust_pending_put_of_output_queues(self, batch_size: int = 1):
-        internal_queues = [q for q in self.output_queues if not isinstance(q, store.Store)]
-        for output_queue in internal_queues:
-            for i in range(batch_size):
-                output_queue.reserve()
+    def adjust_pending_put_of_output_queues(self, put_events: List[events.Event]):
+        for put_event in put_events:
+            put_event.resource.reserve()
 
 class TransportResource(Resource):
     """
-- 
2.43.0


From d04260d257bb29d33f25cae57b69c115ab3902bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 003/106] fix: reserve the storage place of auxiliaries

Every put into a queue uses up one reserved place. Auxiliaries were put
into their storage without a reservation, both initially and when they
are given back, so that the storage accepted more items than its
capacity allows.
---
 prodsys/factories/auxiliary_factory.py | 1 +
 prodsys/simulation/router.py           | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/prodsys/factories/auxiliary_factory.py b/prodsys/factories/auxiliary_factory.py
index 41aabd3..8365a17 100644
--- a/prodsys/factories/auxiliary_factory.py
+++ b/prodsys/factories/auxiliary_factory.py
@@ -94,6 +94,7 @@ class AuxiliaryFactory(BaseModel):
                         None
                 """
                 for auxiliary in self.auxiliaries:
+                        auxiliary.current_locatable.reserve()
                         auxiliary.current_locatable.put(auxiliary.product_data)
 
         def get_auxiliary(self, ID: str) -> auxiliary.Auxiliary:
diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index acc1b0d..fd55f24 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -514,9 +514,16 @@ class Router:
         )
         # transport_request = self.get_transport_request(auxiliary, auxiliary.transport_process, auxiliary.storage)
         env = get_env_from_requests([auxiliary_request])
+        while not self.get_requests_with_non_blocked_resources([auxiliary_request]):
+            yield events.AnyOf(
+                env, self.get_input_queue_state_change_events([auxiliary_request])
+            )
+        auxiliary.storage.reserve()
         transport_request: request.TransportResquest = yield env.process(
             self.route_transport_resource_for_item(auxiliary_request)
         )
+        if not transport_request:
+            auxiliary.storage.unreserve()
         yield env.timeout(0)
         return transport_request
 
-- 
2.43.0


From 10005f9e12ae27dfb3bb26c26ff40e7321dede77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 004/106] fix: give back the storage place if no transport was
 routed

If an agent leaves the transport request open, the routing of the product
to the storage is repeated, which reserved a further place each time.
---
 prodsys/simulation/router.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index fd55f24..0b43d52 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -392,6 +392,8 @@ class Router:
         transport_request = yield env.process(
             self.route_transport_resource_for_item(storage_request)
         )
+        if not transport_request:
+            storage_request.resource.unreserve()
 
         return transport_request
 
-- 
2.43.0


From 837952d41a851fa434091f7bfc7354e11e2069ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 005/106] fix: repeat routing of an auxiliary to its store
 until a transport is found

---
 prodsys/simulation/product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/product.py b/prodsys/simulation/product.py
index 27f136b..2deb39b 100644
--- a/prodsys/simulation/product.py
+++ b/prodsys/simulation/product.py
@@ -366,7 +366,7 @@ class Product(BaseModel):
                         )
                     )
                 )
-                if not auxiliary_request:
+                if not auxiliary_transport_request:
                     yield self.env.timeout(0)
                     continue
                 break
-- 
2.43.0


From f80eae044a7e7f6be3ba0ba32923478de2992736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 006/106] fix: builder systems with failure or charging states
 could not be converted

A comprehension variable shadowed the state module for the other
comprehensions of to_model, which raises an UnboundLocalError.
---
 prodsys/express/production_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index 39084ea..d6400d1 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -109,7 +109,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_models = (
             [process_instance.time_model for process_instance in processes if not isinstance(process_instance, process.RequiredCapabilityProcess)]
-            + [state.time_model for state in states]
+            + [s.time_model for s in states]
             + [source.time_model for source in self.sources]
         )
         time_models += [
@@ -138,7 +138,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_model_data = [time_model.to_model() for time_model in time_models]
         process_data = [process.to_model() for process in processes]
-        state_data = [state.to_model() for state in states]
+        state_data = [s.to_model() for s in states]
         nodes_data = [node.to_model() for node in nodes]
         product_data = [product.to_model() for product in products]
         resource_data = [resource.to_model() for resource in self.resources]
-- 
2.43.0


From 5603cb20f2ba56510783db6bc814b6b3b01a3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 007/106] fix: interrupted work resumed while the resource or
 process had failed again

---
 prodsys/simulation/state.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7888c10..2cd733c 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -251,6 +251,18 @@ class State(ABC, BaseModel):
         except:
             raise RuntimeError(f"state {self.state_data.ID} is allready succeded!!")
 
+    def wait_until_available(self) -> Generator:
+        """
+        Waits until the state and its resource are active at the same time.
+
+        Yields:
+            Generator: The generator of the process.
+        """
+        while True:
+            yield events.AllOf(self.env, [self.resource.active, self.active])
+            if self.resource.active.triggered and self.active.triggered:
+                break
+
     @abstractmethod
     def process_state(self) -> Generator:
         """
@@ -321,7 +333,7 @@ class ProductionState(State):
                     yield events.AllOf(self.env, [self.active, self.resource.active])
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_available()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -334,7 +346,7 @@ class ProductionState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_available()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -433,7 +445,7 @@ class TransportState(State):
                     yield events.AllOf(self.env, [self.active, self.resource.active])
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_available()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -446,7 +458,7 @@ class TransportState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_available()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -632,7 +644,7 @@ class SetupState(State):
                     yield events.AllOf(self.env, [self.active, self.resource.active])
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_available()
                 running_processes = [
                     state.process
                     for state in self.resource.production_states
@@ -652,7 +664,7 @@ class SetupState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_available()
                     self.interrupted = False
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.state_info.log_end_interrupt_state(
@@ -732,7 +744,7 @@ class ChargingState(State):
                     yield events.AllOf(self.env, [self.active, self.resource.active])
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_available()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -745,7 +757,7 @@ class ChargingState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_available()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
-- 
2.43.0


From 225fc3433d0f350e405ef25491655563a0bd95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 008/106] fix: overlapping process failures of a resource with
 set-up states

---
 prodsys/simulation/state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 2cd733c..f15c57b 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -578,9 +578,9 @@ class ProcessBreakDownState(State):
         while True:
             yield self.env.process(self.wait_for_breakdown())
             debug_logging(self, f"breakdown occured, start interrupting processes")
-            yield events.AllOf(
-                self.env, [state.active for state in self.production_states]
-            )
+            states = self.production_states + self.resource.setup_states
+            while not all(state.active.triggered for state in states):
+                yield events.AllOf(self.env, [state.active for state in states])
             debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
-- 
2.43.0


From 8c4312499a9c99793cdab277750cc9e25bddce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 009/106] fix: a process failure drew an additional repair time
 for a log message

---
 prodsys/simulation/state.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index f15c57b..ebbe8c8 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -581,7 +581,6 @@ class ProcessBreakDownState(State):
             states = self.production_states + self.resource.setup_states
             while not all(state.active.triggered for state in states):
                 yield events.AllOf(self.env, [state.active for state in states])
-            debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
             for state in self.production_states + self.resource.setup_states:
-- 
2.43.0


From 7c7b9e0c2eee6d72817fcd08950d80b5e403d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 010/106] fix: interruption of charging was logged as
 interruption of production

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index ebbe8c8..f5fd8bb 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -752,7 +752,7 @@ class ChargingState(State):
             try:
                 if self.interrupted:
                     self.state_info.log_start_interrupt_state(
-                        self.env.now, StateTypeEnum.production
+                        self.env.now, StateTypeEnum.charging
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-- 
2.43.0


From cfbacea7b95e8289369fb3218eaddd1c1fbcf08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 011/106] fix: a common batch duration of zero was replaced by
 a sample per item

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index f5fd8bb..f1343cb 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -322,7 +322,7 @@ class ProductionState(State):
         self.active = events.Event(self.env).succeed()
 
     def process_state(self, time: Optional[float] = None) -> Generator:
-        if not time:
+        if time is None:
             time = self.time_model.get_next_time()
         self.done_in = time
         self.resource.consider_battery_usage(self.done_in)
-- 
2.43.0


From 1f9cb3302645faaef3d61a70a668ee6b40c950c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 012/106] fix: the failure of a transport process had no effect

---
 prodsys/factories/resource_factory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prodsys/factories/resource_factory.py b/prodsys/factories/resource_factory.py
index c0bba7f..3a34fad 100644
--- a/prodsys/factories/resource_factory.py
+++ b/prodsys/factories/resource_factory.py
@@ -135,8 +135,7 @@ def adjust_process_breakdown_states(
         production_states = [
             state_instance
             for state_instance in resource.production_states
-            if isinstance(state_instance, state.ProductionState)
-            and state_instance.state_data.ID == process_id
+            if state_instance.state_data.ID == process_id
         ]
         process_breakdown_state.set_production_states(production_states)
 
-- 
2.43.0


From 51b734ac070eef6dad4371c7e55a14cc3a0a5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 013/106] fix: claim the free process slot of a resource in the
 moment it is found

---
 prodsys/simulation/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index c1a8257..1f6954e 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -280,7 +280,7 @@ class ProductionController(Controller):
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
 
-            production_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            production_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
             yield self.env.process(self.run_process(production_state, product, process))
             production_state.process = None
@@ -791,7 +791,7 @@ class TransportController(Controller):
             if origin.data.ID != self._current_locatable.data.ID:
                 route_to_origin = self.find_route_to_origin(process_request)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Empty transport needed for {product.product_data.ID} from {origin.data.ID} to {target.data.ID}"})
-                transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+                transport_state: state.State = yield from self.wait_for_free_process(resource, process)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport to pick up {product.product_data.ID} for transport"})
                 yield self.env.process(self.run_transport(transport_state, product, route_to_origin, empty_transport=True))
 
@@ -800,7 +800,7 @@ class TransportController(Controller):
             yield events.AllOf(resource.env, product_retrieval_events)
             product.update_location(self.resource)
 
-            transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            transport_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport of {product.product_data.ID}"})
             yield self.env.process(self.run_transport(transport_state, product, route_to_target, empty_transport=False))
 
-- 
2.43.0


From 427e18f1cd918942c7aaa2aa6d7890825911b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 014/106] fix: forget every finished work step before deciding
 whether a resource is full

---
 prodsys/simulation/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 1f6954e..a3ee984 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -237,7 +237,7 @@ class ProductionController(Controller):
             )
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
-            for process in self.running_processes:
+            for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
             if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
@@ -478,7 +478,7 @@ class BatchController(Controller):
             )
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
-            for process in self.running_processes:
+            for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
             if self.resource.full or (len(self.requests) < batch_size and len(self.requests) > 0):
@@ -729,7 +729,7 @@ class TransportController(Controller):
                 yield self.env.process(self.resource.charge())
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
-            for process in self.running_processes:
+            for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
             if self.resource.full or not self.requests:
-- 
2.43.0


From d931fbbdc2d4abe898dc0a1a9c9ca81376df6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 015/106] fix: compound processes never matched by the
 capabilities they contain

---
 prodsys/simulation/process.py | 42 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/prodsys/simulation/process.py b/prodsys/simulation/process.py
index d998689..63ceba5 100644
--- a/prodsys/simulation/process.py
+++ b/prodsys/simulation/process.py
@@ -92,9 +92,9 @@ class CapabilityProcess(Process):
             return False
         if isinstance(requested_process, CompoundProcess):
             return self.process_data.capability in [
-                p.process_data.capability
+                p.capability
                 for p in requested_process.contained_processes_data
-                if isinstance(p, CapabilityProcess)
+                if isinstance(p, processes_data.CapabilityProcessData)
             ]
         return requested_process.process_data.capability == self.process_data.capability
 
@@ -140,17 +140,29 @@ def is_process_with_capability(process: "PROCESS_UNION") -> bool:
     """
     return isinstance(process, CapabilityProcess) or isinstance(process, RequiredCapabilityProcess) or (isinstance(process, LinkTransportProcess) and process.process_data.capability)
 
-def is_available_process_with_capability(process: "PROCESS_UNION") -> bool:
+def is_process_data_with_capability(process_data: processes_data.PROCESS_DATA_UNION) -> bool:
     """
-    Returns True if the given process is an available process with capability.
+    Returns True if the given process data (e.g. contained in a compound process) describes a process with capability.
 
     Args:
-        process (PROCESS_UNION): The process.
+        process_data (processes_data.PROCESS_DATA_UNION): The process data.
+
+    Returns:
+        bool: True if the given process data describes a process with capability.
+    """
+    return is_available_process_data_with_capability(process_data) or isinstance(process_data, processes_data.RequiredCapabilityProcessData)
+
+def is_available_process_data_with_capability(process_data: processes_data.PROCESS_DATA_UNION) -> bool:
+    """
+    Returns True if the given process data (e.g. contained in a compound process) describes an available process with capability.
+
+    Args:
+        process_data (processes_data.PROCESS_DATA_UNION): The process data.
 
     Returns:
-        bool: True if the given process is an available process with capability.
+        bool: True if the given process data describes an available process with capability.
     """
-    return isinstance(process, CapabilityProcess) or (isinstance(process, LinkTransportProcess) and process.process_data.capability)
+    return isinstance(process_data, processes_data.CapabilityProcessData) or (isinstance(process_data, processes_data.LinkTransportProcessData) and bool(process_data.capability))
 
 class CompoundProcess(Process):
     """
@@ -180,24 +192,24 @@ class CompoundProcess(Process):
             return requested_process.process_data.ID in self.process_data.process_ids
         elif is_process_with_capability(requested_process):
             return requested_process.process_data.capability in [
-                p.process_data.capability
+                p.capability
                 for p in self.contained_processes_data
-                if is_available_process_with_capability(p)
+                if is_available_process_data_with_capability(p)
             ]
         elif isinstance(requested_process, CompoundProcess):
             return any(
                 p.ID in self.process_data.process_ids
                 for p in requested_process.contained_processes_data
-                if isinstance(p, ProductionProcess)
+                if isinstance(p, processes_data.ProductionProcessData)
             ) or any(
                 p.capability
                 in [
-                    p.process_data.capability
+                    p.capability
                     for p in self.contained_processes_data
-                    if is_available_process_with_capability(p)
+                    if is_available_process_data_with_capability(p)
                 ]
                 for p in requested_process.contained_processes_data
-                if is_available_process_with_capability(p)
+                if is_available_process_data_with_capability(p)
             )
         return False
 
@@ -271,9 +283,9 @@ class LinkTransportProcess(TransportProcess):
         if isinstance(requested_process, CompoundProcess):
             possible_processes = []
             for process_data_instance in requested_process.contained_processes_data:
-                if is_process_with_capability(process_data_instance) and self.process_data.capability and self.process_data.capability == process_data_instance.capability:
+                if is_process_data_with_capability(process_data_instance) and self.process_data.capability and self.process_data.capability == process_data_instance.capability:
                     possible_processes.append(process_data_instance)
-                if isinstance(process_data_instance, LinkTransportProcess) and process_data_instance.ID == self.process_data.ID:
+                if isinstance(process_data_instance, processes_data.LinkTransportProcessData) and process_data_instance.ID == self.process_data.ID:
                     possible_processes.append(process_data_instance)
             if not possible_processes:
                 return False
-- 
2.43.0


From 71d1d7e80547651be8992fb632ac826331c98310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 016/106] fix: log the start of work that takes no time

---
 prodsys/simulation/state.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index f1343cb..6b7ed70 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -338,7 +338,7 @@ class ProductionState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
-        while self.done_in:
+        while True:
             try:
                 if self.interrupted:
                     self.state_info.log_start_interrupt_state(
@@ -358,7 +358,8 @@ class ProductionState(State):
                 )
                 debug_logging(self, f"starting process that ends in {self.done_in}")
                 yield self.env.timeout(self.done_in)
-                self.done_in = 0  # Set to 0 to exit while loop.
+                self.done_in = 0
+                break
 
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -450,7 +451,7 @@ class TransportState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
-        while self.done_in:
+        while True:
             try:
                 if self.interrupted:
                     self.state_info.log_start_interrupt_state(
@@ -470,7 +471,8 @@ class TransportState(State):
                     )
                 debug_logging(self, f"starting process that ends in {self.done_in}")
                 yield self.env.timeout(self.done_in)
-                self.done_in = 0  # Set to 0 to exit while loop.
+                self.done_in = 0
+                break
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
@@ -655,7 +657,7 @@ class SetupState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
-        while self.done_in:
+        while True:
             try:
                 if self.interrupted:
                     self.state_info.log_start_interrupt_state(
@@ -676,6 +678,7 @@ class SetupState(State):
                 debug_logging(self, f"starting process that ends in {self.done_in}")
                 yield self.env.timeout(self.done_in)
                 self.done_in = 0
+                break
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
@@ -748,7 +751,7 @@ class ChargingState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
-        while self.done_in:
+        while True:
             try:
                 if self.interrupted:
                     self.state_info.log_start_interrupt_state(
@@ -768,7 +771,8 @@ class ChargingState(State):
                 )
                 debug_logging(self, f"starting process that ends in {self.done_in}")
                 yield self.env.timeout(self.done_in)
-                self.done_in = 0  # Set to 0 to exit while loop.
+                self.done_in = 0
+                break
 
             except exceptions.Interrupt:
                 if not self.interrupted:
-- 
2.43.0


From 486487d47f02cc959362024092fa67f188cd6ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 017/106] fix: link transports drive to their first pick-up and
 leave the configured links alone

---
 prodsys/simulation/route_finder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index f0295b9..ac5a730 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -78,7 +78,8 @@ class RouteFinder:
         route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=process.links)
         from prodsys.simulation.resources import TransportResource
         if isinstance(origin, TransportResource):
-            route = route[1:]
+            # the first drive starts where the transport resource was placed initially
+            route = [origin] + route
         return route
 
     def process_links_to_graph_edges(self, links: List[List[Locatable]], origin: Locatable, target: Locatable, empty_transport: bool) -> List[Tuple[GraphNode, GraphNode, int]]:
@@ -110,7 +111,7 @@ class RouteFinder:
                         closest_locatable = locatable
                     if self.calculate_cost(origin_location, locatable.get_location()) < self.calculate_cost(origin_location, closest_locatable.get_location()):
                         closest_locatable = locatable
-            links.append([origin, closest_locatable])
+            links = links + [[origin, closest_locatable]]
 
         for link in links:
             link_origin = link[0]
-- 
2.43.0


From 3e77af1835b992353c7301a6b3d107810c0da1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 018/106] fix: euclidean distances can be configured (the
 metric was spelled differently where it is used)

---
 prodsys/models/time_model_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index e64bb12..c0ff4e1 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -299,7 +299,7 @@ class DistanceTimeModelData(CoreAsset):
         description (str): Description of the time model.
         speed (float): Speed of the transport.
         reaction_time (float): Reaction time of the transport.
-        metric (Literal["manhattan", "euclidian"]): Metric to calculate the distance. Default is "manhattan".
+        metric (Literal["manhattan", "euclidean"]): Metric to calculate the distance. Default is "manhattan".
 
     Examples:
         Distance time model with speed 180 m/min = 3 m/s and reaction time 0.15 minutes:
@@ -316,7 +316,7 @@ class DistanceTimeModelData(CoreAsset):
 
     speed: float
     reaction_time: float
-    metric: Literal["manhattan", "euclidian"] = "manhattan"
+    metric: Literal["manhattan", "euclidean"] = "manhattan"
 
     def hash(self) -> str:
         """
-- 
2.43.0


From 577e026348edd44a148e281d8ebaacd91fe44947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 019/106] fix: missing locations raise a ValueError in
 ManhattanDistanceTimeModel

---
 prodsys/simulation/time_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/time_model.py b/prodsys/simulation/time_model.py
index 13c565a..7d4523d 100644
--- a/prodsys/simulation/time_model.py
+++ b/prodsys/simulation/time_model.py
@@ -349,7 +349,7 @@ class ManhattanDistanceTimeModel(TimeModel):
             float: The next time of the time model.
         """
         if origin is None or target is None:
-            raise ("Origin and target must be defined for ManhattanDistanceTimeModel")  # type: ignore
+            raise ValueError("Origin and target must be defined for ManhattanDistanceTimeModel")
         x_distance = abs(origin[0] - target[0])
         y_distance = abs(origin[1] - target[1])
         return (
@@ -372,7 +372,7 @@ class ManhattanDistanceTimeModel(TimeModel):
             float: The expected time of the time model.
         """
         if origin is None or target is None:
-            raise ("Origin and target must be defined for ManhattanDistanceTimeModel")  # type: ignore
+            raise ValueError("Origin and target must be defined for ManhattanDistanceTimeModel")
         return self.get_next_time(origin, target)
 
 
-- 
2.43.0


From f37fa282c8cba54b0f8f03a6b121dc0b0e9d54fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 020/106] fix: nearest-origin transport policies work (missing
 location mode, stores have queue lengths)

---
 prodsys/simulation/control.py |  4 ++--
 prodsys/simulation/store.py   | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a3ee984..3439c4f 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -995,7 +995,7 @@ def nearest_origin_and_longest_target_queues_transport_control_policy(requests:
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                get_location(x.resource, mode="origin"), get_location(x.origin, mode="origin")),
                 - x.target.get_output_queue_length()
                 )
     )
@@ -1011,7 +1011,7 @@ def nearest_origin_and_shortest_target_input_queues_transport_control_policy(req
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                get_location(x.resource, mode="origin"), get_location(x.origin, mode="origin")),
             x.target.get_input_queue_length()
             )
     )
diff --git a/prodsys/simulation/store.py b/prodsys/simulation/store.py
index d1cb786..1e84ff8 100644
--- a/prodsys/simulation/store.py
+++ b/prodsys/simulation/store.py
@@ -117,4 +117,22 @@ class Store(Queue):
     
     def get_output_location(self):
         return self.data.output_location
+
+    def get_input_queue_length(self) -> int:
+        """
+        Returns the number of items in the store. Needed for transport control policies that use the target locations input queue for request ordering.
+
+        Returns:
+            int: Number of items in the store.
+        """
+        return len(self.items)
+
+    def get_output_queue_length(self) -> int:
+        """
+        Returns the number of items in the store. Needed for transport control policies that use the target locations output queue for request ordering.
+
+        Returns:
+            int: Number of items in the store.
+        """
+        return len(self.items)
     
-- 
2.43.0


From abd065a574d92c21770a6ae211d13b39a4404f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 021/106] fix: LIFO serves the latest arrival first (the
 waiting list was reversed again at every decision)

---
 prodsys/simulation/control.py | 7 +++++--
 prodsys/simulation/request.py | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 3439c4f..d31e414 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -52,6 +52,7 @@ class Controller(ABC, BaseModel):
     requests: List[request_module.Request] = Field(init=False, default_factory=list)
     running_processes: List[events.Process] = []
     reserved_requests_count: int = 0
+    requests_count: int = 0
 
     @field_validator("requested", mode="before")
     def init_requested(cls, v, info: ValidationInfo):
@@ -71,6 +72,8 @@ class Controller(ABC, BaseModel):
         Args:
             process_request (Request): The request to be processed.
         """
+        self.requests_count += 1
+        process_request.arrival = self.requests_count
         self.requests.append(process_request)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Got requested by {process_request.product.product_data.ID}"})
         if not self.requested.triggered:
@@ -947,12 +950,12 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (reverse the list).
+    Sort the requests according to the LIFO principle (latest arrival first).
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.reverse()
+    requests.sort(key=lambda x: x.arrival, reverse=True)
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
diff --git a/prodsys/simulation/request.py b/prodsys/simulation/request.py
index 52fe139..b5ff6c9 100644
--- a/prodsys/simulation/request.py
+++ b/prodsys/simulation/request.py
@@ -26,8 +26,13 @@ class Request:
         process (process.PROCESS_UNION): The process.
         product (product.Product): The product.
         resource (resources.Resource): The resource.
+
+    Attributes:
+        arrival (int): Position of the request among all requests its controller has received. Set by the controller.
     """
 
+    arrival: int = 0
+
     def __init__(self, process: PROCESS_UNION, product: Product, resource: Resource):
         self.process = process
         self.product = product
-- 
2.43.0


From e382851b956f150a61a00870edc27ca2e7e9235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 022/106] fix: processes that only appear as successors in a
 precedence graph wait for their predecessors

---
 prodsys/factories/product_factory.py | 4 ++--
 prodsys/simulation/proces_models.py  | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/prodsys/factories/product_factory.py b/prodsys/factories/product_factory.py
index 66bee8b..620a803 100644
--- a/prodsys/factories/product_factory.py
+++ b/prodsys/factories/product_factory.py
@@ -84,8 +84,8 @@ class ProductFactory:
         id_predecessor_adjacency_matrix = (
             proces_models.get_predecessors_adjacency_matrix(id_adjacency_matrix)
         )
-        for key in id_adjacency_matrix.keys():
-            sucessor_ids = id_adjacency_matrix[key]
+        for key in id_predecessor_adjacency_matrix.keys():
+            sucessor_ids = id_adjacency_matrix.get(key, [])
             predecessor_ids = id_predecessor_adjacency_matrix[key]
             process = self.process_factory.get_process(key)
             successors = [
diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index de71e67..86018a1 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -117,8 +117,11 @@ def get_predecessors_adjacency_matrix(
     Returns:
         Dict[str, List[str]]: Predecessor adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the predecessing processes.
     """
+    process_ids = list(adjacency_matrix.keys())
+    for successors in adjacency_matrix.values():
+        process_ids += [process_id for process_id in successors if process_id not in process_ids]
     predecessors_adjacency_matrix = {}
-    for process_id in adjacency_matrix.keys():
+    for process_id in process_ids:
         predecessors_adjacency_matrix[process_id] = get_predecessor_processes(
             process_id, adjacency_matrix
         )
-- 
2.43.0


From da4ff7ec69f1a5a44170732392ecb0c320bc626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 023/106] fix: precedence graphs from edges are built in the
 order of the edges, not in hash order

---
 prodsys/simulation/proces_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index 86018a1..d6dba19 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -138,7 +138,7 @@ def get_adjacency_matrix_from_edges(edges: List[List[str]]) -> Dict[str, List[st
     Returns:
         Dict[str, List[str]]: Adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the successor processes.
     """
-    nodes = list(set(flatten(edges)))
+    nodes = list(dict.fromkeys(flatten(edges)))
     adjacency_matrix = {}
     for node in nodes:
         successors = [edge[1] for edge in edges if edge[0] == node]
-- 
2.43.0


From 64581e090098dd1a3c62412b41c74b8f71bc9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 024/106] fix: successors in a product's precedence graph are
 validated like its other processes

---
 prodsys/adapters/adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 587bf58..dff3991 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -787,7 +787,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ):
                 required_processes = set(util.flatten(product.processes))
             elif isinstance(product.processes, dict):
-                required_processes = set(product.processes.keys())
+                required_processes = set(product.processes.keys()) | set(util.flatten(product.processes.values()))
             if required_processes - all_processes != set():
                 raise ValueError(
                     f"The processes {required_processes - all_processes} of product {product.ID} are not a valid processes of {all_processes}."
@@ -1219,7 +1219,7 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     """
     available = set(list(util.flatten([resource.process_ids for resource in configuration.resource_data])))
     required = util.flatten([product.processes for product in configuration.product_data if not isinstance(product.processes, dict)])
-    required_dict_processes = util.flatten([list(product.processes.keys()) for product in configuration.product_data if isinstance(product.processes, dict)])
+    required_dict_processes = util.flatten([[*product.processes.keys(), *util.flatten(product.processes.values())] for product in configuration.product_data if isinstance(product.processes, dict)])
     required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data])
 
     required_production_processes = get_production_processes_from_ids(configuration, required)
-- 
2.43.0


From 089e220df2ea503120dcc5bf2d9aa2df7ff46772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 025/106] fix: raise an error if no auxiliary can ever serve a
 product instead of looping without time passing

---
 prodsys/simulation/router.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index 0b43d52..50997ed 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -532,6 +532,10 @@ class Router:
     def get_auxiliary(self, processing_request: request.AuxiliaryRequest) -> Generator:
 
         possible_auxiliaries = self.get_possible_auxiliaries(processing_request)
+        if not possible_auxiliaries:
+            raise ValueError(
+                f"No possible auxiliaries found for product {processing_request.product.product_data.ID}."
+            )
         while True:
             free_possible_auxiliaries = self.get_free_auxiliary(possible_auxiliaries)
             # TODO: maybe make heuristic working for selecting auxiliary...
-- 
2.43.0


From a15a32d10ec1e47f209e0505b816f864d3bbe452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 026/106] fix: run_until draws under the seed of the simulation
 and leaves the caller's random state alone

---
 prodsys/simulation/sim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/sim.py b/prodsys/simulation/sim.py
index 6292ed7..c2a2b18 100644
--- a/prodsys/simulation/sim.py
+++ b/prodsys/simulation/sim.py
@@ -62,6 +62,7 @@ class Environment(core.Environment):
         self.seed: int = seed
         self.pbar: Any = None
         self.last_update = 0
+        self._random_states: Any = None
 
     def run(self, time_range: float):
         """
@@ -81,12 +82,18 @@ class Environment(core.Environment):
 
     def run_until(self, until: events.Event):
         """
-        Runs the simulation until a given event.
+        Runs the simulation until a given event. Several calls continue the random number stream of the simulation, which starts with its seed.
 
         Args:
             until (events.Event): The event to run the simulation until.
         """
-        super().run(until=until)
+        with temp_seed(self.seed):
+            if self._random_states is not None:
+                np_state, p_state = self._random_states
+                np.random.set_state(np_state)
+                random.setstate(p_state)
+            super().run(until=until)
+            self._random_states = (np.random.get_state(), random.getstate())
 
     def request_process_of_resource(self, request: request.Request) -> None:
         """
-- 
2.43.0


From f777ef5fc2695df7a8a5c4dde8e5d1a479736d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 027/106] fix: get_process compares the identifier for equality
 instead of searching it inside the requested one

---
 prodsys/factories/process_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index 397e46d..c98cb98 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -126,7 +126,7 @@ class ProcessFactory(BaseModel):
         Returns:
             Optional[process.PROCESS_UNION]: Process object based on the given ID.
         """
-        pr = [pr for pr in self.processes if pr.process_data.ID in ID]
+        pr = [pr for pr in self.processes if pr.process_data.ID == ID]
         if not pr:
             raise ValueError(f"Process with ID {ID} not found")
         return pr.pop()
-- 
2.43.0


From 2597e49d505e45980a3cc4e911ba3559363a0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 028/106] fix: accept the auxiliary WIP among the KPI kinds of
 performance data and objectives

---
 prodsys/models/performance_indicators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prodsys/models/performance_indicators.py b/prodsys/models/performance_indicators.py
index 2690f70..18e58df 100644
--- a/prodsys/models/performance_indicators.py
+++ b/prodsys/models/performance_indicators.py
@@ -349,6 +349,7 @@ KPI_UNION = Union[
     Throughput,
     Cost,
     WIP,
+    AuxiliaryWIP,
     ThroughputTime,
     ProcessingTime,
     ProductiveTime,
-- 
2.43.0


From cd8c3e0814a44c05bee5ddb634c5dc92a0cd1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 029/106] fix: hand failure rate and batch size of the
 configuration to the simulated process and resource

---
 prodsys/factories/process_factory.py  | 2 +-
 prodsys/factories/resource_factory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index c98cb98..40fe93b 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -50,7 +50,7 @@ class ProcessFactory(BaseModel):
             values.update({"time_model": time_model})
         else:
             values.update({"time_model": None})
-        if "failure_rate" in process_data:
+        if hasattr(process_data, "failure_rate"):
             # TODO: fix this in simulation process to use parameter of process data
             values.update({"failure_rate": process_data.failure_rate})
         if isinstance(process_data, processes_data.TransportProcessData):
diff --git a/prodsys/factories/resource_factory.py b/prodsys/factories/resource_factory.py
index 3a34fad..94142b1 100644
--- a/prodsys/factories/resource_factory.py
+++ b/prodsys/factories/resource_factory.py
@@ -221,7 +221,7 @@ class ResourceFactory(BaseModel):
             values.update(
                 {"input_queues": input_queues, "output_queues": output_queues}
             )
-            if "batch_size" in resource_data:
+            if hasattr(resource_data, "batch_size"):
                 values.update({"batch_size": resource_data.batch_size})
 
         resource_object = TypeAdapter(RESOURCE_UNION).validate_python(values)
-- 
2.43.0


From d05cbc44e4eda74b5fe98e0c804e419bd836a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 030/106] fix: collect the processes of all compound processes
 instead of overwriting the result

---
 prodsys/adapters/adapter.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index dff3991..b3a727e 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1105,58 +1105,55 @@ def get_required_capability_processes_from_ids(
 def get_contained_production_processes_from_compound_processes(
     adapter_object: ProductionSystemAdapter, compound_processes: List[processes_data_module.CompoundProcessData]
 ) -> List[processes_data_module.PROCESS_DATA_UNION]:
-    processes = []
+    contained_processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
             processes = get_production_processes_from_ids(adapter_object, [process_id])
             if len(processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
             if processes:
-                process = processes[0]
-                processes.append(process)
-    return processes
+                contained_processes.append(processes[0])
+    return contained_processes
 
 def get_contained_capability_processes_from_compound_processes(
     adapter_object: ProductionSystemAdapter, compound_processes: List[processes_data_module.CompoundProcessData]
 ) -> List[processes_data_module.PROCESS_DATA_UNION]:
-    processes = []
+    contained_processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
             processes = get_capability_processes_from_ids(adapter_object, [process_id])
             if len(processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
             if processes:
-                process = processes[0]
-                processes.append(process)
-    return processes
+                contained_processes.append(processes[0])
+    return contained_processes
 
 def get_contained_transport_processes_from_compound_processes(
     adapter_object: ProductionSystemAdapter, compound_processes: List[processes_data_module.CompoundProcessData]
 ) -> List[processes_data_module.PROCESS_DATA_UNION]:
-    processes = []
+    contained_processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
             processes = get_transport_processes_from_ids(adapter_object, [process_id])
             if len(processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
             if processes:
-                process = processes[0]
-                processes.append(process)
-    return processes
+                contained_processes.append(processes[0])
+    return contained_processes
 
 
 def get_contained_required_capability_processes_from_compound_processes(
     adapter_object: ProductionSystemAdapter, compound_processes: List[processes_data_module.CompoundProcessData]
 ) -> List[processes_data_module.PROCESS_DATA_UNION]:
-    processes = []
+    contained_processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
             processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
             if len(processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            process = processes[0]
-            processes.append(process)
-    return processes
+            if processes:
+                contained_processes.append(processes[0])
+    return contained_processes
 
 
 def assert_production_processes_available(available: List[Union[processes_data_module.ProductionProcessData, processes_data_module.ReworkProcessData]], 
-- 
2.43.0


From a29b2747828bf8aa87923351260f19a91f86956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 031/106] fix: raise a ValueError for unknown transport
 processes of products (ValidationError cannot be constructed from a message)

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index b3a727e..f5514f4 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -774,7 +774,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for product in products:
             all_processes = get_set_of_IDs(values["process_data"])
             if product.transport_process not in all_processes:
-                raise ValidationError(
+                raise ValueError(
                     f"The transport process {product.transport_process} of product {product.ID} is not a valid process of {all_processes}."
                 )
             required_processes = set()
-- 
2.43.0


From 63c6b19f37367f283e7a40137ad3cb5aef91a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 032/106] fix: check the queues of a production resource that
 only defines input or output queues

---
 prodsys/adapters/adapter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index f5514f4..a965a2d 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -754,13 +754,12 @@ class ProductionSystemAdapter(ABC, BaseModel):
                     )
             if isinstance(resource, resource_data_module.ProductionResourceData):
                 queues = get_set_of_IDs(values["queue_data"])
-                if resource.input_queues and resource.output_queues:
-                    for queue in resource.input_queues + resource.output_queues:
-                        if queue not in queues:
-                            raise ValueError(
-                                f"The queue {queue} of resource {resource.ID} is not a valid queue of {queues}."
-                            )
-                else:
+                for queue in (resource.input_queues or []) + (resource.output_queues or []):
+                    if queue not in queues:
+                        raise ValueError(
+                            f"The queue {queue} of resource {resource.ID} is not a valid queue of {queues}."
+                        )
+                if not (resource.input_queues and resource.output_queues):
                     input_queues, output_queues = get_default_queues_for_resource(resource)
                     resource.input_queues = list(get_set_of_IDs(input_queues))
                     resource.output_queues = list(get_set_of_IDs(output_queues))
-- 
2.43.0


From 7f234226264ebedc3a067a742d0caccd16d2b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 033/106] fix: reject references to unknown time models,
 processes, auxiliaries and storages before a run

---
 prodsys/adapters/adapter.py | 53 +++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index a965a2d..6cb92cb 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -901,7 +901,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ValueError: If multiple objects are positioned at the same location.
             ValueError: If not all required process are available.
             ValueError: If not all links are available for LinkTransportProcesses.
+            ValueError: If an object refers to an ID that does not exist.
         """
+        assert_all_references_available(self)
         assert_no_redudant_locations(self)
         assert_required_processes_in_resources_available(self)
         assert_all_links_available(self)
@@ -993,6 +995,57 @@ def assert_all_links_available(adapter: ProductionSystemAdapter):
                 )
 
 
+def assert_all_references_available(adapter: ProductionSystemAdapter):
+    """
+    Asserts that every ID that an object uses to refer to another object belongs to an existing object. References that can already be checked when the data of an object is set are validated there, all others are validated here.
+
+    Args:
+        adapter (ProductionSystemAdapter): Production system configuration
+
+    Raises:
+        ValueError: If an object refers to an ID that does not exist.
+    """
+    time_models = get_set_of_IDs(adapter.time_model_data)
+    processes = get_set_of_IDs(adapter.process_data)
+    queues = get_set_of_IDs(adapter.queue_data)
+    auxiliaries = get_set_of_IDs(adapter.auxiliary_data or [])
+
+    def assert_available(owner, name: str, references: List[Optional[str]], available: Set[str]):
+        for reference in references:
+            if reference is not None and reference not in available:
+                raise ValueError(
+                    f"The {name} {reference} of {owner.ID} does not exist in {available}."
+                )
+
+    for state in adapter.state_data:
+        if isinstance(state, (state_data_module.BreakDownStateData, state_data_module.ProcessBreakDownStateData)):
+            assert_available(state, "repair time model", [state.repair_time_model_id], time_models)
+        if isinstance(state, state_data_module.ProcessBreakDownStateData):
+            assert_available(state, "process", [state.process_id], processes)
+        if isinstance(state, state_data_module.ChargingStateData):
+            assert_available(state, "battery time model", [state.battery_time_model_id], time_models)
+        if isinstance(state, state_data_module.TransportStateData):
+            assert_available(state, "loading time model", [state.loading_time_model_id], time_models)
+            assert_available(state, "unloading time model", [state.unloading_time_model_id], time_models)
+        if isinstance(state, state_data_module.SetupStateData):
+            assert_available(state, "origin and target process", [state.origin_setup, state.target_setup], processes)
+    for process in adapter.process_data:
+        if isinstance(process, processes_data_module.TransportProcessData):
+            assert_available(process, "loading time model", [process.loading_time_model_id], time_models)
+            assert_available(process, "unloading time model", [process.unloading_time_model_id], time_models)
+        if isinstance(process, processes_data_module.CompoundProcessData):
+            assert_available(process, "contained process", process.process_ids, processes)
+        if isinstance(process, processes_data_module.ReworkProcessData):
+            assert_available(process, "reworked process", process.reworked_process_ids, processes)
+    for product in adapter.product_data:
+        assert_available(product, "auxiliary", product.auxiliaries or [], auxiliaries)
+    for auxiliary in adapter.auxiliary_data or []:
+        assert_available(auxiliary, "transport process", [auxiliary.transport_process], processes)
+        assert_available(auxiliary, "storage", auxiliary.storages, queues)
+        assert_available(auxiliary, "relevant process", auxiliary.relevant_processes, processes)
+        assert_available(auxiliary, "relevant transport process", auxiliary.relevant_transport_processes, processes)
+
+
 def check_for_clean_compound_processes(
         adapter_object: ProductionSystemAdapter,
 ) -> bool:
-- 
2.43.0


From f2e66a4ac837375ecc768af177bc58ccf18cbaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 034/106] fix: hash of time models distinguishes the kind of
 time model and separates its values

---
 prodsys/models/time_model_data.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index c0ff4e1..ca0aa58 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -78,7 +78,7 @@ class SequentialTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.sequence)])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, self.sequence)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -122,7 +122,7 @@ class SampleTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.samples)])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, self.samples)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -172,7 +172,7 @@ class ScheduledTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -238,7 +238,7 @@ class FunctionTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, [self.distribution_function, self.location, self.scale])])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, [self.distribution_function, self.location, self.scale])])).encode("utf-8")).hexdigest()
     
 @deprecated(
     'prodsys ManhattanDistanceTimeModelData is deprecated and will be removed in the future. Use instead the prodsys.models.time_model_data.DistanceTimeModelData.',
@@ -276,7 +276,7 @@ class ManhattanDistanceTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, [self.speed, self.reaction_time])])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, [self.speed, self.reaction_time])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -325,7 +325,7 @@ class DistanceTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, [self.speed, self.reaction_time, self.metric])])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, [self.speed, self.reaction_time, self.metric])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
-- 
2.43.0


From 554abac9fc79306405a5529f4fca0da3ad7de58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 035/106] fix: hash of setup states considers all processes
 when looking for origin and target setup

---
 prodsys/models/state_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/state_data.py b/prodsys/models/state_data.py
index 3e20674..325a048 100644
--- a/prodsys/models/state_data.py
+++ b/prodsys/models/state_data.py
@@ -366,7 +366,7 @@ class SetupStateData(StateData):
             for process in adapter.process_data:
                 if process.ID == process_id:
                     setup_process_hashes.append(process.hash(adapter))
-                break
+                    break
             else:
                 raise ValueError(
                     f"Process with ID {process_id} not found for setup state {self.ID}."
-- 
2.43.0


From 00bbee6f79236269c705106367ba312e761284e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 036/106] fix: hash of transport states considers loading and
 unloading time models

---
 prodsys/models/state_data.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/prodsys/models/state_data.py b/prodsys/models/state_data.py
index 325a048..dbdcf6d 100644
--- a/prodsys/models/state_data.py
+++ b/prodsys/models/state_data.py
@@ -302,6 +302,34 @@ class TransportStateData(StateData):
     loading_time_model_id: Optional[str] = None
     unloading_time_model_id: Optional[str] = None
 
+    def hash(self, adapter: ProductionSystemAdapter) -> str:
+        """
+        Returns a unique hash of the state considering the time model data, its type and the loading and unloading time models. Can be used to compare states for equal functionality.
+
+        Args:
+            adapter (ProductionSystemAdapter): Adapter that contains the time model data.
+
+        Raises:
+            ValueError: If a time model is not found.
+
+        Returns:
+            str: Hash of the state.
+        """
+        time_model_hashes = [super().hash(adapter)]
+        for time_model_id in [self.loading_time_model_id, self.unloading_time_model_id]:
+            if time_model_id is None:
+                time_model_hashes.append("None")
+                continue
+            for time_model in adapter.time_model_data:
+                if time_model.ID == time_model_id:
+                    time_model_hashes.append(time_model.hash())
+                    break
+            else:
+                raise ValueError(
+                    f"Time model with ID {time_model_id} not found for state {self.ID}."
+                )
+        return md5(",".join(time_model_hashes).encode("utf-8")).hexdigest()
+
     model_config = ConfigDict(
         json_schema_extra={
             "examples": [
-- 
2.43.0


From fe616cf114e425f5cd933c397aac814d11f05e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 037/106] fix: hash of processes considers their kind, the
 reworked processes and which of loading and unloading time is given

---
 prodsys/models/processes_data.py | 39 ++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 17a4637..0254e15 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -82,7 +82,7 @@ class ProcessData(CoreAsset):
             raise ValueError(
                 f"Time model with ID {self.time_model_id} not found for process {self.ID}."
             )
-        return md5((time_model_hash).encode("utf-8")).hexdigest()
+        return md5((self.__class__.__name__ + "," + time_model_hash).encode("utf-8")).hexdigest()
 
 
 class ProductionProcessData(ProcessData):
@@ -195,7 +195,7 @@ class CapabilityProcessData(ProcessData):
             str: hash of the capability process data.
         """
         base_class_hash = super().hash(adapter)
-        return md5((base_class_hash + self.capability + str(self.failure_rate)).encode("utf-8")).hexdigest()
+        return md5(",".join([base_class_hash, self.capability, str(self.failure_rate)]).encode("utf-8")).hexdigest()
 
 
 class TransportProcessData(ProcessData):
@@ -270,7 +270,7 @@ class TransportProcessData(ProcessData):
                     unloading_time_model_hash = time_model.hash()
                     break
         input_data = (
-            base_class_hash + loading_time_model_hash + unloading_time_model_hash
+            base_class_hash + "," + loading_time_model_hash + "," + unloading_time_model_hash
         )
 
         return md5(input_data.encode("utf-8")).hexdigest()
@@ -307,6 +307,35 @@ class ReworkProcessData(ProcessData):
     reworked_process_ids: List[str]
     blocking: bool
 
+    def hash(self, adapter: ProductionSystemAdapter) -> str:
+        """
+        Returns a unique hash for the rework process data considering the time model, the reworked processes and whether the rework is blocking. Can be used to compare two process data objects for equal functionality.
+
+        Args:
+            adapter (ProductionSystemAdapter): Adapter to access the time model and process data.
+
+        Raises:
+            ValueError: If a reworked process is not found.
+
+        Returns:
+            str: hash of the rework process data.
+        """
+        process_hashes = []
+        for process_id in self.reworked_process_ids:
+            for process in adapter.process_data:
+                if process.ID == process_id:
+                    process_hashes.append(process.hash(adapter))
+                    break
+            else:
+                raise ValueError(
+                    f"Process with ID {process_id} not found for rework process {self.ID}."
+                )
+        return md5(
+            ",".join(
+                [super().hash(adapter), *sorted(process_hashes), str(self.blocking)]
+            ).encode("utf-8")
+        ).hexdigest()
+
     model_config = ConfigDict(
         json_schema_extra={
             "examples": [
@@ -373,7 +402,7 @@ class CompoundProcessData(CoreAsset):
                 raise ValueError(
                     f"Process with ID {process_id} not found for compound process {self.ID}."
                 )
-        return md5("".join([*sorted(process_hashes)]).encode("utf-8")).hexdigest()
+        return md5(",".join([self.__class__.__name__, *sorted(process_hashes)]).encode("utf-8")).hexdigest()
 
 
 class RequiredCapabilityProcessData(CoreAsset):
@@ -425,7 +454,7 @@ class RequiredCapabilityProcessData(CoreAsset):
         Returns:
             str: hash of the required capability process data.
         """
-        return md5(self.capability.encode("utf-8")).hexdigest()
+        return md5((self.__class__.__name__ + "," + self.capability).encode("utf-8")).hexdigest()
 
 
 class LinkTransportProcessData(TransportProcessData):
-- 
2.43.0


From cf87cffc48237d49d604985f677ca2056901c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 038/106] fix: hash of link transport processes considers the
 linked locations instead of their identifiers

---
 prodsys/models/processes_data.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 0254e15..5cb8330 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -503,11 +503,25 @@ class LinkTransportProcessData(TransportProcessData):
         """
         base_class_hash = super().hash(adapter)
 
-        sorted_links = sorted(["-".join(link) for link in self.links])
-
-        input_data = base_class_hash + "".join(sorted_links) + self.capability
+        locations = {
+            locatable.ID: str(locatable.location)
+            for locatable in [
+                *adapter.node_data,
+                *adapter.resource_data,
+                *adapter.source_data,
+                *adapter.sink_data,
+            ]
+        }
+        sorted_links = sorted(
+            "-".join(locations.get(location_id, location_id) for location_id in link)
+            for link in self.links
+        )
 
-        return md5(input_data.encode("utf-8")).hexdigest()
+        return md5(
+            ",".join([base_class_hash, str(self.capability), *sorted_links]).encode(
+                "utf-8"
+            )
+        ).hexdigest()
 
     model_config = ConfigDict(
         json_schema_extra={
-- 
2.43.0


From 1947794a7965a4eff762ab84d27ce8984a003a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 039/106] fix: hash of resources considers control policy,
 batch size, capacities per process and the side of each queue

---
 prodsys/models/resource_data.py | 35 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 22c35b6..331f9d7 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -9,6 +9,7 @@ The following resources are available:
 
 from __future__ import annotations
 from hashlib import md5
+from itertools import zip_longest
 from typing import Any, Literal, Union, List, Optional, TYPE_CHECKING
 from enum import Enum
 
@@ -135,14 +136,19 @@ class ResourceData(CoreAsset, Locatable):
             else:
                 raise ValueError(f"Process with ID {process_id} not found for resource {self.ID}.")
 
+        process_capacity_hashes = [
+            f"{process_hash}:{process_capacity}"
+            for process_hash, process_capacity in zip_longest(process_hashes, self.process_capacities or [])
+        ]
+
         return md5((
-            "".join(
+            ",".join(
                 [
                     base_class_hash,
                     str(self.capacity), 
                     self.controller, 
-                    *sorted(process_hashes), 
-                    *map(str, self.process_capacities), 
+                    self.control_policy, 
+                    *sorted(process_capacity_hashes), 
                     *sorted(state_hashes)
                 ]
             )
@@ -223,17 +229,18 @@ class ProductionResourceData(ResourceData, InOutLocatable):
         """
         base_class_hash = ResourceData.hash(self, adapter) + InOutLocatable.hash(self)
         queue_hashes = []
-        for queue_id in self.input_queues + self.output_queues:
-            for queue in adapter.queue_data:
-                if queue.ID == queue_id:
-                    queue_hashes.append(queue.hash())
-                    break
-            else:
-                raise ValueError(
-                    f"Queue with ID {queue_id} not found for resource {self.ID}."
-                )
-
-        return md5(("".join([base_class_hash, *sorted(queue_hashes)])).encode("utf-8")).hexdigest()
+        for direction, queue_ids in [("in", self.input_queues), ("out", self.output_queues)]:
+            for queue_id in queue_ids:
+                for queue in adapter.queue_data:
+                    if queue.ID == queue_id:
+                        queue_hashes.append(direction + queue.hash())
+                        break
+                else:
+                    raise ValueError(
+                        f"Queue with ID {queue_id} not found for resource {self.ID}."
+                    )
+
+        return md5((",".join([base_class_hash, str(self.batch_size), *sorted(queue_hashes)])).encode("utf-8")).hexdigest()
 
     model_config=ConfigDict(json_schema_extra={
         "examples": [
-- 
2.43.0


From 721292f0e38b209b6cb04a4f39e683c5fad7c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 040/106] fix: hash of a production system without auxiliary
 data

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 6cb92cb..2959538 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -707,7 +707,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
                 *sorted([product.hash(self) for product in self.product_data]),
                 *sorted([sink.hash(self) for sink in self.sink_data]),
                 *sorted([source.hash(self) for source in self.source_data]),
-                *sorted([auxiliary.hash(self) for auxiliary in self.auxiliary_data]),
+                *sorted([auxiliary.hash(self) for auxiliary in self.auxiliary_data or []]),
                 ]
             )).encode("utf-8")
             ).hexdigest()
-- 
2.43.0


From 8d80e4eef0f06d00753d965185cfab28b1f5f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 041/106] fix: hash of products considers auxiliaries

---
 prodsys/models/product_data.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/prodsys/models/product_data.py b/prodsys/models/product_data.py
index 957f90c..037bc5a 100644
--- a/prodsys/models/product_data.py
+++ b/prodsys/models/product_data.py
@@ -107,8 +107,15 @@ class ProductData(CoreAsset):
             else:
                 raise ValueError(f"Process with ID {self.processes} not found for product {self.ID}.")
             
-        # TODO: add hashing for auxiliaries!
-        
+        auxiliary_hashes = []
+        for auxiliary_id in self.auxiliaries or []:
+            for auxiliary in adapter.auxiliary_data or []:
+                if auxiliary.ID == auxiliary_id:
+                    auxiliary_hashes.append(auxiliary.hash(adapter))
+                    break
+            else:
+                raise ValueError(f"Auxiliary with ID {auxiliary_id} not found for product {self.ID}.")
+
         for transport_process in adapter.process_data:
             if transport_process.ID == self.transport_process:
                 transport_process_hash = transport_process.hash(adapter)
@@ -116,7 +123,7 @@ class ProductData(CoreAsset):
         else:
             raise ValueError(f"Transport process with ID {self.transport_process} not found for product {self.ID}.")
         
-        return md5("".join([*processes_hashes, transport_process_hash]).encode("utf-8")).hexdigest()
+        return md5(",".join([*processes_hashes, transport_process_hash, *sorted(auxiliary_hashes)]).encode("utf-8")).hexdigest()
                    
     @model_validator(mode="before")
     def check_processes(cls, values):
-- 
2.43.0


From 4d1e4f8fe5beba428f3d6f82dcd89105beffb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 042/106] Revert "fix: hash of products considers auxiliaries"

This reverts commit 8d80e4eef0f06d00753d965185cfab28b1f5f394.
---
 prodsys/models/product_data.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/prodsys/models/product_data.py b/prodsys/models/product_data.py
index 037bc5a..957f90c 100644
--- a/prodsys/models/product_data.py
+++ b/prodsys/models/product_data.py
@@ -107,15 +107,8 @@ class ProductData(CoreAsset):
             else:
                 raise ValueError(f"Process with ID {self.processes} not found for product {self.ID}.")
             
-        auxiliary_hashes = []
-        for auxiliary_id in self.auxiliaries or []:
-            for auxiliary in adapter.auxiliary_data or []:
-                if auxiliary.ID == auxiliary_id:
-                    auxiliary_hashes.append(auxiliary.hash(adapter))
-                    break
-            else:
-                raise ValueError(f"Auxiliary with ID {auxiliary_id} not found for product {self.ID}.")
-
+        # TODO: add hashing for auxiliaries!
+        
         for transport_process in adapter.process_data:
             if transport_process.ID == self.transport_process:
                 transport_process_hash = transport_process.hash(adapter)
@@ -123,7 +116,7 @@ class ProductData(CoreAsset):
         else:
             raise ValueError(f"Transport process with ID {self.transport_process} not found for product {self.ID}.")
         
-        return md5(",".join([*processes_hashes, transport_process_hash, *sorted(auxiliary_hashes)]).encode("utf-8")).hexdigest()
+        return md5("".join([*processes_hashes, transport_process_hash]).encode("utf-8")).hexdigest()
                    
     @model_validator(mode="before")
     def check_processes(cls, values):
-- 
2.43.0


From 223f993b60cf3501f70dc122988f06e24e03dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 043/106] Revert "fix: hash of resources considers control
 policy, batch size, capacities per process and the side of each queue"

This reverts commit 1947794a7965a4eff762ab84d27ce8984a003a45.
---
 prodsys/models/resource_data.py | 35 +++++++++++++--------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 331f9d7..22c35b6 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -9,7 +9,6 @@ The following resources are available:
 
 from __future__ import annotations
 from hashlib import md5
-from itertools import zip_longest
 from typing import Any, Literal, Union, List, Optional, TYPE_CHECKING
 from enum import Enum
 
@@ -136,19 +135,14 @@ class ResourceData(CoreAsset, Locatable):
             else:
                 raise ValueError(f"Process with ID {process_id} not found for resource {self.ID}.")
 
-        process_capacity_hashes = [
-            f"{process_hash}:{process_capacity}"
-            for process_hash, process_capacity in zip_longest(process_hashes, self.process_capacities or [])
-        ]
-
         return md5((
-            ",".join(
+            "".join(
                 [
                     base_class_hash,
                     str(self.capacity), 
                     self.controller, 
-                    self.control_policy, 
-                    *sorted(process_capacity_hashes), 
+                    *sorted(process_hashes), 
+                    *map(str, self.process_capacities), 
                     *sorted(state_hashes)
                 ]
             )
@@ -229,18 +223,17 @@ class ProductionResourceData(ResourceData, InOutLocatable):
         """
         base_class_hash = ResourceData.hash(self, adapter) + InOutLocatable.hash(self)
         queue_hashes = []
-        for direction, queue_ids in [("in", self.input_queues), ("out", self.output_queues)]:
-            for queue_id in queue_ids:
-                for queue in adapter.queue_data:
-                    if queue.ID == queue_id:
-                        queue_hashes.append(direction + queue.hash())
-                        break
-                else:
-                    raise ValueError(
-                        f"Queue with ID {queue_id} not found for resource {self.ID}."
-                    )
-
-        return md5((",".join([base_class_hash, str(self.batch_size), *sorted(queue_hashes)])).encode("utf-8")).hexdigest()
+        for queue_id in self.input_queues + self.output_queues:
+            for queue in adapter.queue_data:
+                if queue.ID == queue_id:
+                    queue_hashes.append(queue.hash())
+                    break
+            else:
+                raise ValueError(
+                    f"Queue with ID {queue_id} not found for resource {self.ID}."
+                )
+
+        return md5(("".join([base_class_hash, *sorted(queue_hashes)])).encode("utf-8")).hexdigest()
 
     model_config=ConfigDict(json_schema_extra={
         "examples": [
-- 
2.43.0


From 2f30c3c1fbb4d55cbc15e647efd4a86716d2a75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 044/106] Revert "fix: hash of processes considers their kind,
 the reworked processes and which of loading and unloading time is given"

This reverts commit fe616cf114e425f5cd933c397aac814d11f05e1c.
---
 prodsys/models/processes_data.py | 39 ++++----------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 5cb8330..be9a657 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -82,7 +82,7 @@ class ProcessData(CoreAsset):
             raise ValueError(
                 f"Time model with ID {self.time_model_id} not found for process {self.ID}."
             )
-        return md5((self.__class__.__name__ + "," + time_model_hash).encode("utf-8")).hexdigest()
+        return md5((time_model_hash).encode("utf-8")).hexdigest()
 
 
 class ProductionProcessData(ProcessData):
@@ -195,7 +195,7 @@ class CapabilityProcessData(ProcessData):
             str: hash of the capability process data.
         """
         base_class_hash = super().hash(adapter)
-        return md5(",".join([base_class_hash, self.capability, str(self.failure_rate)]).encode("utf-8")).hexdigest()
+        return md5((base_class_hash + self.capability + str(self.failure_rate)).encode("utf-8")).hexdigest()
 
 
 class TransportProcessData(ProcessData):
@@ -270,7 +270,7 @@ class TransportProcessData(ProcessData):
                     unloading_time_model_hash = time_model.hash()
                     break
         input_data = (
-            base_class_hash + "," + loading_time_model_hash + "," + unloading_time_model_hash
+            base_class_hash + loading_time_model_hash + unloading_time_model_hash
         )
 
         return md5(input_data.encode("utf-8")).hexdigest()
@@ -307,35 +307,6 @@ class ReworkProcessData(ProcessData):
     reworked_process_ids: List[str]
     blocking: bool
 
-    def hash(self, adapter: ProductionSystemAdapter) -> str:
-        """
-        Returns a unique hash for the rework process data considering the time model, the reworked processes and whether the rework is blocking. Can be used to compare two process data objects for equal functionality.
-
-        Args:
-            adapter (ProductionSystemAdapter): Adapter to access the time model and process data.
-
-        Raises:
-            ValueError: If a reworked process is not found.
-
-        Returns:
-            str: hash of the rework process data.
-        """
-        process_hashes = []
-        for process_id in self.reworked_process_ids:
-            for process in adapter.process_data:
-                if process.ID == process_id:
-                    process_hashes.append(process.hash(adapter))
-                    break
-            else:
-                raise ValueError(
-                    f"Process with ID {process_id} not found for rework process {self.ID}."
-                )
-        return md5(
-            ",".join(
-                [super().hash(adapter), *sorted(process_hashes), str(self.blocking)]
-            ).encode("utf-8")
-        ).hexdigest()
-
     model_config = ConfigDict(
         json_schema_extra={
             "examples": [
@@ -402,7 +373,7 @@ class CompoundProcessData(CoreAsset):
                 raise ValueError(
                     f"Process with ID {process_id} not found for compound process {self.ID}."
                 )
-        return md5(",".join([self.__class__.__name__, *sorted(process_hashes)]).encode("utf-8")).hexdigest()
+        return md5("".join([*sorted(process_hashes)]).encode("utf-8")).hexdigest()
 
 
 class RequiredCapabilityProcessData(CoreAsset):
@@ -454,7 +425,7 @@ class RequiredCapabilityProcessData(CoreAsset):
         Returns:
             str: hash of the required capability process data.
         """
-        return md5((self.__class__.__name__ + "," + self.capability).encode("utf-8")).hexdigest()
+        return md5(self.capability.encode("utf-8")).hexdigest()
 
 
 class LinkTransportProcessData(TransportProcessData):
-- 
2.43.0


From ca99786b829061c567247803dce4e18356bad347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 045/106] Revert "fix: hash of time models distinguishes the
 kind of time model and separates its values"

This reverts commit f2e66a4ac837375ecc768af177bc58ccf18cbaeb.
---
 prodsys/models/time_model_data.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index ca0aa58..c0ff4e1 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -78,7 +78,7 @@ class SequentialTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5((",".join([self.__class__.__name__, *map(str, self.sequence)])).encode("utf-8")).hexdigest()
+        return md5(("".join([*map(str, self.sequence)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -122,7 +122,7 @@ class SampleTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5((",".join([self.__class__.__name__, *map(str, self.samples)])).encode("utf-8")).hexdigest()
+        return md5(("".join([*map(str, self.samples)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -172,7 +172,7 @@ class ScheduledTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5((",".join([self.__class__.__name__, *map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
+        return md5(("".join([*map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -238,7 +238,7 @@ class FunctionTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5((",".join([self.__class__.__name__, *map(str, [self.distribution_function, self.location, self.scale])])).encode("utf-8")).hexdigest()
+        return md5(("".join([*map(str, [self.distribution_function, self.location, self.scale])])).encode("utf-8")).hexdigest()
     
 @deprecated(
     'prodsys ManhattanDistanceTimeModelData is deprecated and will be removed in the future. Use instead the prodsys.models.time_model_data.DistanceTimeModelData.',
@@ -276,7 +276,7 @@ class ManhattanDistanceTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5((",".join([self.__class__.__name__, *map(str, [self.speed, self.reaction_time])])).encode("utf-8")).hexdigest()
+        return md5(("".join([*map(str, [self.speed, self.reaction_time])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -325,7 +325,7 @@ class DistanceTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5((",".join([self.__class__.__name__, *map(str, [self.speed, self.reaction_time, self.metric])])).encode("utf-8")).hexdigest()
+        return md5(("".join([*map(str, [self.speed, self.reaction_time, self.metric])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
-- 
2.43.0


From 19e6544a658a934465452df25d787977a028c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 046/106] Revert "fix: hash of setup states considers all
 processes when looking for origin and target setup"

This reverts commit 554abac9fc79306405a5529f4fca0da3ad7de58d.
---
 prodsys/models/state_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/state_data.py b/prodsys/models/state_data.py
index dbdcf6d..bf9448d 100644
--- a/prodsys/models/state_data.py
+++ b/prodsys/models/state_data.py
@@ -394,7 +394,7 @@ class SetupStateData(StateData):
             for process in adapter.process_data:
                 if process.ID == process_id:
                     setup_process_hashes.append(process.hash(adapter))
-                    break
+                break
             else:
                 raise ValueError(
                     f"Process with ID {process_id} not found for setup state {self.ID}."
-- 
2.43.0


From 846938c9936575608a167d9b71a22ad7a21cf947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 047/106] fix: hash of sequential, sample and scheduled time
 models distinguishes their kind and separates their values

---
 prodsys/models/time_model_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index c0ff4e1..70812c4 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -78,7 +78,7 @@ class SequentialTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.sequence)])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, self.sequence)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -122,7 +122,7 @@ class SampleTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.samples)])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, self.samples)])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
@@ -172,7 +172,7 @@ class ScheduledTimeModelData(CoreAsset):
         Returns:
             str: Hash of the time model.
         """
-        return md5(("".join([*map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
+        return md5((",".join([self.__class__.__name__, *map(str, self.schedule)] + [*map(str, [self.absolute, self.cyclic])])).encode("utf-8")).hexdigest()
     
     model_config=ConfigDict(json_schema_extra={
         "examples": [
-- 
2.43.0


From ce7bb5848e81dd4b2303053a6c2153dbb12f478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 048/106] fix: hash of capability and compound processes
 distinguishes their kind and separates their values

---
 prodsys/models/processes_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index be9a657..92c453e 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -195,7 +195,7 @@ class CapabilityProcessData(ProcessData):
             str: hash of the capability process data.
         """
         base_class_hash = super().hash(adapter)
-        return md5((base_class_hash + self.capability + str(self.failure_rate)).encode("utf-8")).hexdigest()
+        return md5(",".join([self.__class__.__name__, base_class_hash, self.capability, str(self.failure_rate)]).encode("utf-8")).hexdigest()
 
 
 class TransportProcessData(ProcessData):
@@ -373,7 +373,7 @@ class CompoundProcessData(CoreAsset):
                 raise ValueError(
                     f"Process with ID {process_id} not found for compound process {self.ID}."
                 )
-        return md5("".join([*sorted(process_hashes)]).encode("utf-8")).hexdigest()
+        return md5(",".join([self.__class__.__name__, *sorted(process_hashes)]).encode("utf-8")).hexdigest()
 
 
 class RequiredCapabilityProcessData(CoreAsset):
@@ -425,7 +425,7 @@ class RequiredCapabilityProcessData(CoreAsset):
         Returns:
             str: hash of the required capability process data.
         """
-        return md5(self.capability.encode("utf-8")).hexdigest()
+        return md5((self.__class__.__name__ + "," + self.capability).encode("utf-8")).hexdigest()
 
 
 class LinkTransportProcessData(TransportProcessData):
-- 
2.43.0


From 56de0b72bf5a2c34fd2593d54152468b4a23689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 049/106] fix: queue data keeps the locations of stores when a
 configuration is dumped

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 2959538..1567ef4 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -293,7 +293,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     time_model_data: List[time_model_data_module.TIME_MODEL_DATA] = []
     state_data: List[state_data_module.STATE_DATA_UNION] = []
     process_data: List[processes_data_module.PROCESS_DATA_UNION] = []
-    queue_data: List[queue_data_module.QueueData] = []
+    queue_data: List[queue_data_module.QUEUE_DATA_UNION] = []
     node_data: List[node_data_module.NodeData] = []
     resource_data: List[resource_data_module.RESOURCE_DATA_UNION] = []
     product_data: List[product_data_module.ProductData] = []
-- 
2.43.0


From da82e50235e236c5e9f4fd34395e34729a8ae4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 050/106] fix: reading a configuration restores validity,
 reconfiguration cost and scenario

---
 prodsys/adapters/json_adapter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prodsys/adapters/json_adapter.py b/prodsys/adapters/json_adapter.py
index 3a40af2..3f871ac 100644
--- a/prodsys/adapters/json_adapter.py
+++ b/prodsys/adapters/json_adapter.py
@@ -112,6 +112,12 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         if "auxiliary_data" in data:
             self.auxiliary_data = self.create_objects_from_configuration_data(data["auxiliary_data"], auxiliary_data.AuxiliaryData)
         self.source_data = self.create_objects_from_configuration_data(data["source_data"], source_data.SourceData)
+        if "valid_configuration" in data:
+            self.valid_configuration = data["valid_configuration"]
+        if "reconfiguration_cost" in data:
+            self.reconfiguration_cost = data["reconfiguration_cost"]
+        if "scenario_data" in data:
+            self.scenario_data = data["scenario_data"]
         if scenario_file_path:
             self.read_scenario(scenario_file_path)
     
-- 
2.43.0


From 1d833bf83460ea080599dfdba4b4485a7e57d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 051/106] fix: configurations are written and read with the
 same encoding

---
 app/routers/optimization.py      | 2 +-
 prodsys/adapters/json_adapter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/routers/optimization.py b/app/routers/optimization.py
index 47b0c07..515a84a 100644
--- a/app/routers/optimization.py
+++ b/app/routers/optimization.py
@@ -213,6 +213,6 @@ def get_optimization_pareto_front(project_id: str, adapter_id: str):
 def get_optimization_solution(
     project_id: str, adapter_id: str, solution_id: str
 ) -> prodsys.adapters.JsonProductionSystemAdapter:
-    with open(f"data/{project_id}/{adapter_id}/{solution_id}.json") as json_file:
+    with open(f"data/{project_id}/{adapter_id}/{solution_id}.json", encoding="utf-8") as json_file:
         data = json.load(json_file)
     return data
diff --git a/prodsys/adapters/json_adapter.py b/prodsys/adapters/json_adapter.py
index 3f871ac..17f872e 100644
--- a/prodsys/adapters/json_adapter.py
+++ b/prodsys/adapters/json_adapter.py
@@ -145,7 +145,7 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         Args:
             file_path (str): File path for the production system configuration
         """
-        with open(file_path, "w") as json_file:
+        with open(file_path, "w", encoding="utf-8") as json_file:
             json_file.write(self.model_dump_json(indent=4))
     
     def write_scenario_data(self, file_path: str) -> None:
@@ -155,5 +155,5 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         Args:
             file_path (str): File path for the scenario data.
         """
-        with open(file_path, "w") as json_file:
+        with open(file_path, "w", encoding="utf-8") as json_file:
             json_file.write(self.scenario_data.model_dump_json(indent=4))
\ No newline at end of file
-- 
2.43.0


From ba938f5928126f0122cf0b76139a0b5e3fcd3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 052/106] fix: a store shared by auxiliaries and resources
 appears once in the configuration

---
 prodsys/express/production_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index d6400d1..940b059 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -166,6 +166,7 @@ class ProductionSystem(core.ExpressObject):
         stores = [r.input_stores for r in self.resources if isinstance(r, resources.ProductionResource)] + [r.output_stores for r in self.resources if isinstance(r, resources.ProductionResource)]
         stores = list(util.flatten_object(stores))
         queue_data += [store.to_model() for store in stores]
+        queue_data += auxiliary_storage_data
         queue_data = remove_duplicate_items(queue_data)
         return json_adapter.JsonProductionSystemAdapter(
             time_model_data=time_model_data,
@@ -177,7 +178,7 @@ class ProductionSystem(core.ExpressObject):
             resource_data=resource_data,
             source_data=source_data,
             sink_data=sink_data,
-            queue_data=queue_data + auxiliary_storage_data,
+            queue_data=queue_data,
             auxiliary_data = auxiliary_data,
         )
 
-- 
2.43.0


From b41d6b49cb76757cb66d8647ba0d46da6b231379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 053/106] fix: processes referenced only by auxiliaries, states
 or rework processes are collected

---
 prodsys/express/production_system.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index 940b059..1e38f0e 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -82,11 +82,25 @@ class ProductionSystem(core.ExpressObject):
         products = remove_duplicate_items(products)
         auxiliaries = list(util.flatten_object([product.auxiliaries for product in products]))
         auxiliaries = remove_duplicate_items(auxiliaries)
+        states = list(
+            util.flatten_object([resource.states for resource in self.resources])
+        )
+        states = remove_duplicate_items(states)
         processes = list(
             util.flatten_object(
                 [product.processes for product in products]+
                 [product.transport_process for product in products]
                 + [resource.processes for resource in self.resources]
+                + [auxiliary.transport_process for auxiliary in auxiliaries]
+                + [auxiliary.relevant_processes for auxiliary in auxiliaries]
+                + [auxiliary.relevant_transport_processes for auxiliary in auxiliaries]
+                + [s.process for s in states if isinstance(s, state.ProcessBreakdownState)]
+                + [[s.origin_setup, s.target_setup] for s in states if isinstance(s, state.SetupState)]
+            )
+        )
+        processes += list(
+            util.flatten_object(
+                [p.reworked_processes for p in processes if isinstance(p, process.ReworkProcess)]
             )
         )
         processes = remove_duplicate_items(processes)
@@ -102,11 +116,6 @@ class ProductionSystem(core.ExpressObject):
         nodes = remove_duplicate_items(nodes)
         auxiliary_storages = list(util.flatten_object(auxiliary_queue for auxiliary_queue in [auxiliary.storages for auxiliary in auxiliaries ]))
         auxiliary_storages = remove_duplicate_items(auxiliary_storages)
-        states = list(
-            util.flatten_object([resource.states for resource in self.resources])
-        )
-        states = remove_duplicate_items(states)
-
         time_models = (
             [process_instance.time_model for process_instance in processes if not isinstance(process_instance, process.RequiredCapabilityProcess)]
             + [s.time_model for s in states]
-- 
2.43.0


From 9139f4b04be0d82e84c6cd87e623c7dd6a320f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 054/106] fix: creating an element whose ID already exists is
 refused as a conflict

---
 app/dao/process_dao.py    | 13 +++++--------
 app/dao/product_dao.py    | 13 +++++--------
 app/dao/queue_dao.py      | 13 +++++--------
 app/dao/resources_dao.py  | 13 +++++--------
 app/dao/sink_dao.py       | 13 +++++--------
 app/dao/source_dao.py     | 13 +++++--------
 app/dao/state_dao.py      | 12 +++++-------
 app/dao/time_model_dao.py | 13 +++++--------
 8 files changed, 40 insertions(+), 63 deletions(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index c75b672..c59777c 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -21,15 +21,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, process: processes_data.PROCESS_DATA_UNION
 ) -> processes_data.PROCESS_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, process.ID):
-            raise HTTPException(
-                404,
-                f"Process with ID {process.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_process.ID == process.ID for existing_process in adapter.process_data):
+        raise HTTPException(
+            409,
+            f"Process with ID {process.ID} already exists. Try updating instead.",
+        )
     adapter.process_data.append(process)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return process
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 6802fff..72753a4 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, product_id: str) -> product_data.Produ
 def add(
     project_id: str, adapter_id: str, product: product_data.ProductData
 ) -> product_data.ProductData:
-    try:
-        if get(project_id, adapter_id, product.ID):
-            raise HTTPException(
-                404,
-                f"Product with ID {product.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_product.ID == product.ID for existing_product in adapter.product_data):
+        raise HTTPException(
+            409,
+            f"Product with ID {product.ID} already exists. Try updating instead.",
+        )
     adapter.product_data.append(product)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return product
diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 41e66bc..c6a84e7 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 def add(
     project_id: str, adapter_id: str, queue: queue_data.QueueData
 ) -> queue_data.QueueData:
-    try:
-        if get(project_id, adapter_id, queue.ID):
-            raise HTTPException(
-                404,
-                f"Queue with ID {queue.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_queue.ID == queue.ID for existing_queue in adapter.queue_data):
+        raise HTTPException(
+            409,
+            f"Queue with ID {queue.ID} already exists. Try updating instead.",
+        )
     adapter.queue_data.append(queue)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return queue
diff --git a/app/dao/resources_dao.py b/app/dao/resources_dao.py
index 2388b1d..f4d8d4e 100644
--- a/app/dao/resources_dao.py
+++ b/app/dao/resources_dao.py
@@ -40,15 +40,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, resource: resource_data.RESOURCE_DATA_UNION
 ) -> resource_data.RESOURCE_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, resource.ID):
-            raise HTTPException(
-                404,
-                f"Resource with ID {resource.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_resource.ID == resource.ID for existing_resource in adapter.resource_data):
+        raise HTTPException(
+            409,
+            f"Resource with ID {resource.ID} already exists. Try updating instead.",
+        )
     adapter.resource_data.append(resource)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return resource
diff --git a/app/dao/sink_dao.py b/app/dao/sink_dao.py
index 68cc1ea..d59faea 100644
--- a/app/dao/sink_dao.py
+++ b/app/dao/sink_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, sink_id: str) -> sink_data.SinkData:
 def add(
     project_id: str, adapter_id: str, sink: sink_data.SinkData
 ) -> sink_data.SinkData:
-    try:
-        if get(project_id, adapter_id, sink.ID):
-            raise HTTPException(
-                404,
-                f"Sink with ID {sink.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_sink.ID == sink.ID for existing_sink in adapter.sink_data):
+        raise HTTPException(
+            409,
+            f"Sink with ID {sink.ID} already exists. Try updating instead.",
+        )
     adapter.sink_data.append(sink)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return sink
diff --git a/app/dao/source_dao.py b/app/dao/source_dao.py
index 78a9ded..3236131 100644
--- a/app/dao/source_dao.py
+++ b/app/dao/source_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, source_id: str) -> source_data.SourceD
 def add(
     project_id: str, adapter_id: str, source: source_data.SourceData
 ) -> source_data.SourceData:
-    try:
-        if get(project_id, adapter_id, source.ID):
-            raise HTTPException(
-                404,
-                f"Source with ID {source.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_source.ID == source.ID for existing_source in adapter.source_data):
+        raise HTTPException(
+            409,
+            f"Source with ID {source.ID} already exists. Try updating instead.",
+        )
     adapter.source_data.append(source)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return source
diff --git a/app/dao/state_dao.py b/app/dao/state_dao.py
index 97bc685..43d251e 100644
--- a/app/dao/state_dao.py
+++ b/app/dao/state_dao.py
@@ -18,14 +18,12 @@ def get(project_id: str, adapter_id: str, state_id: str) -> state_data.STATE_DAT
 
 
 def add(project_id: str, adapter_id: str, state: state_data.STATE_DATA_UNION):
-    try:
-        if get(project_id, adapter_id, state.ID):
-            raise HTTPException(
-                404, f"State with ID {state.ID} already exists. Try updating instead."
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_state.ID == state.ID for existing_state in adapter.state_data):
+        raise HTTPException(
+            409,
+            f"State with ID {state.ID} already exists. Try updating instead.",
+        )
     adapter.state_data.append(state)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return state
diff --git a/app/dao/time_model_dao.py b/app/dao/time_model_dao.py
index 78e47cf..143920e 100644
--- a/app/dao/time_model_dao.py
+++ b/app/dao/time_model_dao.py
@@ -23,15 +23,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, time_model: time_model_data.TIME_MODEL_DATA
 ) -> time_model_data.TIME_MODEL_DATA:
-    try:
-        if get(project_id, adapter_id, time_model.ID):
-            raise HTTPException(
-                404,
-                f"Time model with ID {time_model.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing_time_model.ID == time_model.ID for existing_time_model in adapter.time_model_data):
+        raise HTTPException(
+            409,
+            f"Time model with ID {time_model.ID} already exists. Try updating instead.",
+        )
     adapter.time_model_data.append(time_model)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return time_model
-- 
2.43.0


From 8d9fe8e30802fda43a069351255b012f72b8820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 055/106] fix: deleting processes works and deleting a missing
 product is answered with 404

---
 app/dao/process_dao.py | 2 +-
 app/dao/product_dao.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index c59777c..668396b 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -52,6 +52,6 @@ def delete(project_id: str, adapter_id: str, process_id: str):
     for idx, process in enumerate(adapter.process_data):
         if process.ID == process_id:
             adapter.process_data.pop(idx)
-            prodsys_backend.update_adapter(project_id, adapter)
+            prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
     raise HTTPException(404, f"Process with ID {process_id} not found.")
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 72753a4..e3e527b 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -51,3 +51,4 @@ def delete(project_id: str, adapter_id: str, product_id: str):
             adapter.product_data.pop(idx)
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
+    raise HTTPException(404, f"Product with ID {product_id} not found.")
-- 
2.43.0


From 50755e4d4e8781cbafaeaf631c9196ffc28e2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 056/106] fix: updating an element cannot give it the ID of
 another element

---
 app/dao/process_dao.py    | 2 ++
 app/dao/product_dao.py    | 2 ++
 app/dao/queue_dao.py      | 2 ++
 app/dao/resources_dao.py  | 2 ++
 app/dao/sink_dao.py       | 2 ++
 app/dao/source_dao.py     | 2 ++
 app/dao/state_dao.py      | 2 ++
 app/dao/time_model_dao.py | 2 ++
 8 files changed, 16 insertions(+)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index 668396b..5a54d04 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -39,6 +39,8 @@ def update(
     process: processes_data.PROCESS_DATA_UNION,
 ) -> processes_data.PROCESS_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if process.ID != process_id and any(existing_process.ID == process.ID for existing_process in adapter.process_data):
+        raise HTTPException(409, f"ID {process.ID} is already used by another element.")
     for idx, existing_process in enumerate(adapter.process_data):
         if existing_process.ID == process_id:
             adapter.process_data[idx] = process
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index e3e527b..5e872a1 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -36,6 +36,8 @@ def update(
     project_id: str, adapter_id: str, product_id: str, product: product_data.ProductData
 ) -> product_data.ProductData:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if product.ID != product_id and any(existing_product.ID == product.ID for existing_product in adapter.product_data):
+        raise HTTPException(409, f"ID {product.ID} is already used by another element.")
     for idx, existing_product in enumerate(adapter.product_data):
         if existing_product.ID == product_id:
             adapter.product_data[idx] = product
diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index c6a84e7..54bd82c 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -36,6 +36,8 @@ def update(
     project_id: str, adapter_id: str, queue_id: str, queue: queue_data.QueueData
 ) -> queue_data.QueueData:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if queue.ID != queue_id and any(existing_queue.ID == queue.ID for existing_queue in adapter.queue_data):
+        raise HTTPException(409, f"ID {queue.ID} is already used by another element.")
     for idx, existing_queue in enumerate(adapter.queue_data):
         if existing_queue.ID == queue_id:
             adapter.queue_data[idx] = queue
diff --git a/app/dao/resources_dao.py b/app/dao/resources_dao.py
index f4d8d4e..faf147f 100644
--- a/app/dao/resources_dao.py
+++ b/app/dao/resources_dao.py
@@ -58,6 +58,8 @@ def update(
     resource: resource_data.RESOURCE_DATA_UNION,
 ) -> resource_data.RESOURCE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if resource.ID != resource_id and any(existing_resource.ID == resource.ID for existing_resource in adapter.resource_data):
+        raise HTTPException(409, f"ID {resource.ID} is already used by another element.")
     for idx, existing_resource in enumerate(adapter.resource_data):
         if existing_resource.ID == resource_id:
             adapter.resource_data[idx] = resource
diff --git a/app/dao/sink_dao.py b/app/dao/sink_dao.py
index d59faea..b0a1a1a 100644
--- a/app/dao/sink_dao.py
+++ b/app/dao/sink_dao.py
@@ -39,6 +39,8 @@ def update(
     sink: sink_data.SinkData,
 ) -> sink_data.SinkData:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if sink.ID != sink_id and any(existing_sink.ID == sink.ID for existing_sink in adapter.sink_data):
+        raise HTTPException(409, f"ID {sink.ID} is already used by another element.")
     for idx, existing_sink in enumerate(adapter.sink_data):
         if existing_sink.ID == sink_id:
             adapter.sink_data[idx] = sink
diff --git a/app/dao/source_dao.py b/app/dao/source_dao.py
index 3236131..760923f 100644
--- a/app/dao/source_dao.py
+++ b/app/dao/source_dao.py
@@ -39,6 +39,8 @@ def update(
     source: source_data.SourceData,
 ) -> source_data.SourceData:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if source.ID != source_id and any(existing_source.ID == source.ID for existing_source in adapter.source_data):
+        raise HTTPException(409, f"ID {source.ID} is already used by another element.")
     for idx, existing_source in enumerate(adapter.source_data):
         if existing_source.ID == source_id:
             adapter.source_data[idx] = source
diff --git a/app/dao/state_dao.py b/app/dao/state_dao.py
index 43d251e..beb3f01 100644
--- a/app/dao/state_dao.py
+++ b/app/dao/state_dao.py
@@ -33,6 +33,8 @@ def update(
     project_id: str, adapter_id: str, state_id: str, state: state_data.STATE_DATA_UNION
 ):
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if state.ID != state_id and any(existing_state.ID == state.ID for existing_state in adapter.state_data):
+        raise HTTPException(409, f"ID {state.ID} is already used by another element.")
     for idx, existing_state in enumerate(adapter.state_data):
         if existing_state.ID == state_id:
             adapter.state_data[idx] = state
diff --git a/app/dao/time_model_dao.py b/app/dao/time_model_dao.py
index 143920e..62138ce 100644
--- a/app/dao/time_model_dao.py
+++ b/app/dao/time_model_dao.py
@@ -41,6 +41,8 @@ def update(
     time_model: time_model_data.TIME_MODEL_DATA,
 ) -> time_model_data.TIME_MODEL_DATA:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if time_model.ID != time_model_id and any(existing_time_model.ID == time_model.ID for existing_time_model in adapter.time_model_data):
+        raise HTTPException(409, f"ID {time_model.ID} is already used by another element.")
     for idx, existing_time_model in enumerate(adapter.time_model_data):
         if existing_time_model.ID == time_model_id:
             adapter.time_model_data[idx] = time_model
-- 
2.43.0


From e097d25aeb0e8184e746d8c04d735fc052fc4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 057/106] fix: updating or deleting a missing objective is
 answered with 404

---
 app/dao/scenario_dao.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index ccb8600..20c20ba 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -140,7 +140,7 @@ def update_objective(
         if objective.name == existing_objective.name:
             scenario.objectives[idx] = objective
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective.name} not found for scenario of adapter {adapter_id}.",
     )
@@ -154,7 +154,7 @@ def delete_objective(
         if objective.name == objective_name:
             scenario.objectives.pop(idx)
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective_name} not found for scenario of adapter {adapter_id}.",
     )
-- 
2.43.0


From fa6c96c4b72234d42cce9547ecb3bc1643dc2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 058/106] fix: throughput time is accepted as objective and
 adding an existing objective is a conflict

---
 app/dao/scenario_dao.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index 20c20ba..dfaadb0 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -103,7 +103,7 @@ def add_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
@@ -115,7 +115,7 @@ def add_objective(
         for existing_objective in scenario.objectives
     ):
         raise HTTPException(
-            404,
+            409,
             f"The objective with name {objective.name} already exists. Try updating it.",
         )
     scenario.objectives.append(objective)
@@ -129,7 +129,7 @@ def update_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
-- 
2.43.0


From 68f87f97b4096e01b9c6f706da5be1936c615aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 059/106] fix: a refused update keeps the stored project or
 adapter, deleting an adapter drops its performance

---
 app/backends/in_memory.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 4b17a07..b2aa7d3 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -27,8 +27,14 @@ class InMemoryBackend:
         return project
 
     def update_project(self, project_id: str, project: Project) -> Project:
-        self.delete_project(project_id)
-        return self.create_project(project)
+        if project_id not in self.database:
+            raise HTTPException(404, f"Project {project_id} not found.")
+        if project.ID != project_id:
+            if project.ID in self.database:
+                raise HTTPException(409, f"Project {project.ID} already exists.")
+            del self.database[project_id]
+        self.database[project.ID] = project
+        return project
 
     def delete_project(self, project_id: str):
         if project_id not in self.database:
@@ -54,16 +60,26 @@ class InMemoryBackend:
         return adapter
 
     def update_adapter(self, project_id: str, adapter_id: str, adapter: JsonProductionSystemAdapter) -> JsonProductionSystemAdapter:
-        self.delete_adapter(project_id, adapter_id)
-        return self.create_adapter(project_id, adapter)
+        project = self.get_project(project_id)
+        adapter_ids = [a.ID for a in project.adapters]
+        if adapter_id not in adapter_ids:
+            raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
+        if adapter.ID != adapter_id:
+            if adapter.ID in adapter_ids:
+                raise HTTPException(409, f"Adapter {adapter.ID} already exists in project {project_id}.")
+            if project.performances:
+                project.performances.pop(adapter_id, None)
+        project.adapters[adapter_ids.index(adapter_id)] = adapter
+        return adapter
 
     def delete_adapter(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
         for adapter_index, adapter in enumerate(project.adapters):
             if adapter.ID == adapter_id:
                 del project.adapters[adapter_index]
+                if project.performances:
+                    project.performances.pop(adapter_id, None)
                 return
-        self.delete_performance(project_id, adapter_id)
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
 
-- 
2.43.0


From 34ed74b00f58dcb2a294f8161b8e16675f4bb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 060/106] fix: post processors are kept per adapter

---
 app/backends/in_memory.py | 24 +++++++++++++-----------
 app/models/project.py     |  5 +++--
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index b2aa7d3..2ab6d66 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -69,6 +69,7 @@ class InMemoryBackend:
                 raise HTTPException(409, f"Adapter {adapter.ID} already exists in project {project_id}.")
             if project.performances:
                 project.performances.pop(adapter_id, None)
+            project.post_processors.pop(adapter_id, None)
         project.adapters[adapter_ids.index(adapter_id)] = adapter
         return adapter
 
@@ -79,6 +80,7 @@ class InMemoryBackend:
                 del project.adapters[adapter_index]
                 if project.performances:
                     project.performances.pop(adapter_id, None)
+                project.post_processors.pop(adapter_id, None)
                 return
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
@@ -116,29 +118,29 @@ class InMemoryBackend:
     def get_post_processor(self, project_id: str, adapter_id: str) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
+        if adapter_id not in project.post_processors:
             raise HTTPException(404, f"PostProcessor not found in adapter {adapter_id} of project {project_id}")
-        return project.post_processor
+        return project.post_processors[adapter_id]
 
     def create_post_processor(self, project_id: str, adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if project.post_processor:
-            raise HTTPException(409, f"PostProcessor already exists in project {project_id}. Try updating it with put.")
-        project.post_processor = post_processor
+        if adapter_id in project.post_processors:
+            raise HTTPException(409, f"PostProcessor for adapter {adapter_id} already exists in project {project_id}. Try updating it with put.")
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def update_post_processor(self, project_id: str,  adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
-            raise HTTPException(404, f"PostProcessor not found in project {project_id}. Try creating it with post.")
-        project.post_processor = post_processor
+        if adapter_id not in project.post_processors:
+            raise HTTPException(404, f"PostProcessor for adapter {adapter_id} not found in project {project_id}. Try creating it with post.")
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def delete_post_processor(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
-            raise HTTPException(404, f"PostProcessor not found in project {project_id}.")
-        project.post_processor = None
\ No newline at end of file
+        if adapter_id not in project.post_processors:
+            raise HTTPException(404, f"PostProcessor for adapter {adapter_id} not found in project {project_id}.")
+        del project.post_processors[adapter_id]
diff --git a/app/models/project.py b/app/models/project.py
index 4056127..77d1ff4 100644
--- a/app/models/project.py
+++ b/app/models/project.py
@@ -15,12 +15,13 @@ class Project(BaseModel):
         ID (str): The project ID.
         adapters (List[prodsys.adapters.JsonProductionSystemAdapter]): The adapters of the project.
         performances (Dict[str, Performance]): The performances of the project. The key is the adapter ID.
+        post_processors (Dict[str, PostProcessor]): The post processors of the simulated adapters. The key is the adapter ID.
     """
     ID: str
     adapters: List[prodsys.adapters.JsonProductionSystemAdapter] = []
     # TODO: maybe allow saving performances in project also for adapter_id and specific seed
     performances: Optional[Dict[str, Performance]] = {}
-    post_processor: Optional[PostProcessor] = Field(default=None, exclude=True)
+    post_processors: Dict[str, PostProcessor] = Field(default={}, exclude=True)
     #TODO: make wrapper for postprocessor for schema
 
     model_config = ConfigDict(
@@ -36,7 +37,7 @@ class Project(BaseModel):
                     "performances": {
                         "Example Adapter": Performance.model_config["json_schema_extra"]["examples"][0]
                     },
-                    "post_processor": None
+                    "post_processors": {}
                 }
             ]
         }
-- 
2.43.0


From e18ed60185f2a604cb4bc666d4390d5d132617da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 061/106] fix: the progress of a simulation is kept per project
 and adapter

---
 app/dependencies.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 49acda7..0f15af3 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -1,5 +1,5 @@
 import time
-from typing import Dict
+from typing import Dict, Tuple
 
 import os
 import json
@@ -30,17 +30,17 @@ def get_backend() -> Backend:
 
 
 prodsys_backend = get_backend()
-runners: Dict[str, prodsys.runner.Runner] = {}
+runners: Dict[Tuple[str, str], prodsys.runner.Runner] = {}
 
 
 def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressReport:
-    if adapter_id not in runners:
+    if (project_id, adapter_id) not in runners:
         raise HTTPException(
             404, f"No simulation was yet started for adapter {adapter_id} in project {project_id}."
         )
-    steps_done = runners[adapter_id].env.pbar.n
-    steps_total = runners[adapter_id].env.pbar.total
-    time_done = time.time() - runners[adapter_id].env.pbar.start_t
+    steps_done = runners[(project_id, adapter_id)].env.pbar.n
+    steps_total = runners[(project_id, adapter_id)].env.pbar.total
+    time_done = time.time() - runners[(project_id, adapter_id)].env.pbar.start_t
 
     ratio_done = steps_done / steps_total
     expected_total_time = time_done / ratio_done
@@ -57,7 +57,7 @@ def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: in
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.seed = seed
     runner_object = prodsys.runner.Runner(adapter=adapter)
-    runners[adapter_id] = runner_object
+    runners[(project_id, adapter_id)] = runner_object
     runner_object.initialize_simulation()
     runner_object.run(run_length)
     performance = runner_object.get_performance_data()
-- 
2.43.0


From e5f7325f09b4614a4a373a372de95f6f90ad1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 062/106] fix: registering an optimization solution leaves the
 results of the baseline adapter untouched and adds the solution once

---
 app/dependencies.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 0f15af3..29ca63c 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -1,3 +1,4 @@
+import copy
 import time
 from typing import Dict, Tuple
 
@@ -90,17 +91,12 @@ def prepare_adapter_from_optimization(
     baseline_adapter_id: str,
     solution_id: str,
 ):
-    prodsys_backend.delete_post_processor(project_id, baseline_adapter_id)
     origin_adapter = prodsys_backend.get_adapter(project_id, baseline_adapter_id)
-    adapter_object_optimized.scenario_data = origin_adapter.scenario_data
+    adapter_object_optimized.scenario_data = copy.deepcopy(origin_adapter.scenario_data)
     adapter_object_optimized.ID = solution_id
 
     prodsys_backend.create_adapter(project_id, adapter_object_optimized)
 
-    project = prodsys_backend.get_project(project_id)
-    project.adapters.append(adapter_object_optimized)
-
-
     runner_object = prodsys.runner.Runner(adapter=adapter_object_optimized)
     runner_object.initialize_simulation()
     if adapter_object_optimized.scenario_data and adapter_object_optimized.scenario_data.info.time_range:
@@ -111,18 +107,15 @@ def prepare_adapter_from_optimization(
     
     post_processor = runner_object.get_post_processor()
     try:
-        prodsys_backend.create_post_processor(project_id, baseline_adapter_id, post_processor)
+        prodsys_backend.create_post_processor(project_id, solution_id, post_processor)
     except:
-        prodsys_backend.update_post_processor(project_id, baseline_adapter_id, post_processor)
+        prodsys_backend.update_post_processor(project_id, solution_id, post_processor)
 
     performance = runner_object.get_performance_data()
-    project.performances[adapter_object_optimized.ID] = performance
     try:
-        prodsys_backend.create_performance(project_id, baseline_adapter_id, performance)
+        prodsys_backend.create_performance(project_id, solution_id, performance)
     except:
-        prodsys_backend.update_performance(project_id, baseline_adapter_id, performance)
-
-    prodsys_backend.update_project(project_id, project)
+        prodsys_backend.update_performance(project_id, solution_id, performance)
 
 
 def get_configuration_results_adapter_from_filesystem(
-- 
2.43.0


From 59ab31d601c0786d1a4dc0bab9ee1af109365f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 063/106] fix: optimization solutions are found by their exact
 ID and missing results are answered with 404

---
 app/dependencies.py         |  9 +++++----
 app/routers/optimization.py | 22 ++++++++++++++--------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 29ca63c..02d0e81 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -123,12 +123,13 @@ def get_configuration_results_adapter_from_filesystem(
 ):
     # TODO: use backend to save and retrieve data here...
     adapter_object = prodsys.adapters.JsonProductionSystemAdapter()
-    files = os.listdir(f"data/{project_id}/{adapter_id}")
-    if not any(solution_id in file for file in files):
+    folder = f"data/{project_id}/{adapter_id}"
+    files = os.listdir(folder) if os.path.isdir(folder) else []
+    solution_files = [file for file in files if file.endswith(f"_{solution_id}.json")]
+    if not solution_files:
         raise HTTPException(
             404,
             f"Solution {solution_id} for adapter {adapter_id} in project {project_id} does not exist.",
         )
-    file_name = next(file for file in files if solution_id in file)
-    adapter_object.read_data(f"data/{project_id}/{adapter_id}/{file_name}")
+    adapter_object.read_data(f"{folder}/{solution_files[0]}")
     return adapter_object
diff --git a/app/routers/optimization.py b/app/routers/optimization.py
index 515a84a..f8e69da 100644
--- a/app/routers/optimization.py
+++ b/app/routers/optimization.py
@@ -103,8 +103,11 @@ async def optimize(
     response_model=Dict[str, Union[Dict[str, List[performance_indicators.KPI_UNION]], str]],
 )
 def get_optimization_results(project_id: str, adapter_id: str):
-    with open(f"data/{project_id}/{adapter_id}/optimization_results.json") as json_file:
-        data = json.load(json_file)
+    try:
+        with open(f"data/{project_id}/{adapter_id}/optimization_results.json") as json_file:
+            data = json.load(json_file)
+    except FileNotFoundError:
+        raise HTTPException(404, f"Optimization results not found for adapter {adapter_id} in project {project_id}")
 
     adapter_object = prodsys_backend.get_adapter(project_id, adapter_id)
     kpis = adapter_object.scenario_data.objectives
@@ -188,9 +191,12 @@ def register_adapter_with_evaluation(
     response_model=str,
 )
 def get_optimization_pareto_front(project_id: str, adapter_id: str):
-    IDs = optimization_analysis.get_pareto_solutions_from_result_files(
-        f"data/{project_id}/{adapter_id}/optimization_results.json"
-    )
+    try:
+        IDs = optimization_analysis.get_pareto_solutions_from_result_files(
+            f"data/{project_id}/{adapter_id}/optimization_results.json"
+        )
+    except FileNotFoundError:
+        raise HTTPException(404, f"Optimization results not found for adapter {adapter_id} in project {project_id}")
     for solution_id in IDs:
         adapter_object = get_configuration_results_adapter_from_filesystem(
             project_id, adapter_id, solution_id
@@ -213,6 +219,6 @@ def get_optimization_pareto_front(project_id: str, adapter_id: str):
 def get_optimization_solution(
     project_id: str, adapter_id: str, solution_id: str
 ) -> prodsys.adapters.JsonProductionSystemAdapter:
-    with open(f"data/{project_id}/{adapter_id}/{solution_id}.json", encoding="utf-8") as json_file:
-        data = json.load(json_file)
-    return data
+    return get_configuration_results_adapter_from_filesystem(
+        project_id, adapter_id, solution_id
+    )
-- 
2.43.0


From 5a1d274db672bdcdc080c910bd74946277ca68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 064/106] fix: creating and updating processes and listing
 adapters return what they declare

---
 app/routers/adapters.py  | 4 ++--
 app/routers/processes.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/routers/adapters.py b/app/routers/adapters.py
index 8b9d33e..0c15a8e 100644
--- a/app/routers/adapters.py
+++ b/app/routers/adapters.py
@@ -1,4 +1,4 @@
-from typing import List, Dict
+from typing import List
 
 
 from fastapi import APIRouter
@@ -14,7 +14,7 @@ router = APIRouter(
 )
 
 
-@router.get("/", response_model=Dict[str, JsonProductionSystemAdapter])
+@router.get("/", response_model=List[JsonProductionSystemAdapter])
 async def get_adapters(project_id: str) -> List[JsonProductionSystemAdapter]:
     return prodsys_backend.get_adapters(project_id)
 
diff --git a/app/routers/processes.py b/app/routers/processes.py
index 6a72590..9da0e95 100644
--- a/app/routers/processes.py
+++ b/app/routers/processes.py
@@ -39,7 +39,7 @@ async def get_processes(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully created process",
@@ -73,7 +73,7 @@ async def get_process(project_id: str, adapter_id: str, process_id: str):
 
 @router.put(
     "/{process_id}",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully updated process",
-- 
2.43.0


From f913010ac027cde376fd02ff0590d95489a26de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 065/106] fix: scenario constraints are read under the address
 they are written to

---
 app/routers/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/routers/scenario.py b/app/routers/scenario.py
index af25de6..a3e9110 100644
--- a/app/routers/scenario.py
+++ b/app/routers/scenario.py
@@ -63,7 +63,7 @@ async def update_scenario(
 
 
 @router.get(
-    "/contraints",
+    "/constraints",
     response_model=scenario_data.ScenarioConstrainsData,
     responses={
         200: {
-- 
2.43.0


From 7f378db6955492a2043f9c1c27de55bd223e3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 066/106] fix: stores keep their location when created or
 updated with the API

---
 app/dao/queue_dao.py | 12 ++++++------
 app/routers/queue.py | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 54bd82c..509a62e 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -5,12 +5,12 @@ from app.dependencies import prodsys_backend
 from prodsys.models import queue_data
 
 
-def get_all(project_id: str, adapter_id: str) -> List[queue_data.QueueData]:
+def get_all(project_id: str, adapter_id: str) -> List[queue_data.QUEUE_DATA_UNION]:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     return adapter.queue_data
 
 
-def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData:
+def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for queue in adapter.queue_data:
         if queue.ID == queue_id:
@@ -19,8 +19,8 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 
 
 def add(
-    project_id: str, adapter_id: str, queue: queue_data.QueueData
-) -> queue_data.QueueData:
+    project_id: str, adapter_id: str, queue: queue_data.QUEUE_DATA_UNION
+) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if any(existing_queue.ID == queue.ID for existing_queue in adapter.queue_data):
         raise HTTPException(
@@ -33,8 +33,8 @@ def add(
 
 
 def update(
-    project_id: str, adapter_id: str, queue_id: str, queue: queue_data.QueueData
-) -> queue_data.QueueData:
+    project_id: str, adapter_id: str, queue_id: str, queue: queue_data.QUEUE_DATA_UNION
+) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if queue.ID != queue_id and any(existing_queue.ID == queue.ID for existing_queue in adapter.queue_data):
         raise HTTPException(409, f"ID {queue.ID} is already used by another element.")
diff --git a/app/routers/queue.py b/app/routers/queue.py
index 3048ce5..f161d29 100644
--- a/app/routers/queue.py
+++ b/app/routers/queue.py
@@ -22,7 +22,7 @@ router = APIRouter(
 
 @router.get(
     "/",
-    response_model=List[queue_data.QueueData],
+    response_model=List[queue_data.QUEUE_DATA_UNION],
     responses={
         200: {
             "description": "Sucessfully returned queues",
@@ -37,22 +37,22 @@ async def get_queues(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def create_queue(
     project_id: str,
     adapter_id: str,
     queue: Annotated[
-        queue_data.QueueData,
+        queue_data.QUEUE_DATA_UNION,
         Body(examples=queue_data.QueueData.model_config["json_schema_extra"]["examples"]),
     ],
-) -> queue_data.QueueData:
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.add(project_id, adapter_id, queue)
 
 
 @router.get(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully returned queue",
@@ -67,14 +67,14 @@ async def get_queue(project_id: str, adapter_id: str, queue_id: str):
 
 @router.put(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def update_queue(
     project_id: str,
     adapter_id: str,
     queue_id: str,
-    queue: Annotated[queue_data.QueueData, Body(examples=QUEUE_LIST_EXAMPLE)],
-) -> queue_data.QueueData:
+    queue: Annotated[queue_data.QUEUE_DATA_UNION, Body(examples=QUEUE_LIST_EXAMPLE)],
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.update(project_id, adapter_id, queue_id, queue)
 
 
-- 
2.43.0


From 6a7ac3b14fa9e441f231f05965356d24185eb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 067/106] fix: plots of an adapter without results are answered
 with 404

---
 app/dependencies.py  |  5 +----
 app/routers/plots.py | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 02d0e81..d27c831 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -75,10 +75,7 @@ def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: in
 def get_post_processor(
     project_id: str, adapter_id: str
 ) -> PostProcessor:
-    try:
-        return prodsys_backend.get_post_processor(project_id, adapter_id)
-    except Exception as e:
-        raise HTTPException(status_code=500, detail=str(e))
+    return prodsys_backend.get_post_processor(project_id, adapter_id)
 
 def get_progress_of_optimization(project_id: str, adapter_id: str) -> float:
     # TODO: implement function that returns progress of optimization --> change functional approach of optimization in class and add a progress attribute
diff --git a/app/routers/plots.py b/app/routers/plots.py
index eb382ff..0e8f766 100644
--- a/app/routers/plots.py
+++ b/app/routers/plots.py
@@ -25,6 +25,8 @@ async def get_throughput_time_distribution(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_throughput_time_distribution(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
     
@@ -37,6 +39,8 @@ async def get_line_balance_kpis(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_line_balance_kpis(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -49,6 +53,8 @@ async def get_oee(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_oee(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -61,6 +67,8 @@ async def get_production_flow_rate_per_product(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_production_flow_rate_per_product(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -73,6 +81,8 @@ async def get_resource_utilization(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_boxplot_resource_utilization(post_processor, return_html=True)
         return HTMLResponse(content=html_content, media_type="text/html")
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -85,6 +95,8 @@ async def get_throughput_time_over_time(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_throughput_time_over_time(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -98,6 +110,8 @@ async def get_time_per_state_of_resources(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_time_per_state_of_resources(post_processor, normalized=normalized, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -111,6 +125,8 @@ async def get_util_WIP_resource(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_util_WIP_resource(post_processor, normalized=normalized, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -124,6 +140,8 @@ async def get_transport_utilization_over_time(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_transport_utilization_over_time(post_processor, transport_resource_names=transport_resource_names, return_html=True)
         return HTMLResponse(content=html_content, media_type="text/html")
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -136,6 +154,8 @@ async def get_WIP_with_range(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_WIP_with_range(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -148,6 +168,8 @@ async def get_WIP(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_WIP(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -160,6 +182,8 @@ async def get_WIP_per_resource(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_WIP_per_resource(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
     
@@ -172,5 +196,7 @@ async def get_auxiliary_WIP(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_auxiliary_WIP(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
\ No newline at end of file
-- 
2.43.0


From 1a0ba3529d194eb36053617aa6d7a742a8d48150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 068/106] fix: simulating a missing adapter is answered with
 404

---
 app/routers/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/routers/simulation.py b/app/routers/simulation.py
index 7444436..5394c34 100644
--- a/app/routers/simulation.py
+++ b/app/routers/simulation.py
@@ -23,8 +23,8 @@ async def simulate(
     background_tasks: BackgroundTasks,
     seed: Optional[int] = 0,
 ):
+    adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if not run_length:
-        adapter = prodsys_backend.get_adapter(project_id, adapter_id)
         if adapter.scenario_data and adapter.scenario_data.info:
             run_length = adapter.scenario_data.info.time_range
         else:
-- 
2.43.0


From a1093b2ae3657dc9e198d132ce3a7cfdb4d660a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 069/106] fix: simulated annealing and tabu search work on a
 copy of the given base configuration

Both added default breakdown states to the configuration of the caller.
---
 prodsys/optimization/simulated_annealing.py | 1 +
 prodsys/optimization/tabu_search.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prodsys/optimization/simulated_annealing.py b/prodsys/optimization/simulated_annealing.py
index 93095f2..4565d5d 100644
--- a/prodsys/optimization/simulated_annealing.py
+++ b/prodsys/optimization/simulated_annealing.py
@@ -198,6 +198,7 @@ def simulated_annealing_optimization(
         initial_solution (adapters.ProductionSystemAdapter, optional): Initial solution for optimization. Defaults to None.
     """
     adapters.ProductionSystemAdapter.model_config["validate_assignment"] = False
+    base_configuration = base_configuration.model_copy(deep=True)
     if not adapters.check_for_clean_compound_processes(base_configuration):
         logger.warning(
             "Both compound processes and normal processes are used. This may lead to unexpected results."
diff --git a/prodsys/optimization/tabu_search.py b/prodsys/optimization/tabu_search.py
index d0a346c..f0fb3fc 100644
--- a/prodsys/optimization/tabu_search.py
+++ b/prodsys/optimization/tabu_search.py
@@ -229,6 +229,7 @@ def tabu_search_optimization(
         initial_solution (adapters.ProductionSystemAdapter, optional): Initial solution for optimization. Defaults to None.
     """
     adapters.ProductionSystemAdapter.model_config["validate_assignment"] = False
+    base_configuration = base_configuration.model_copy(deep=True)
     if not adapters.check_for_clean_compound_processes(base_configuration):
         logger.warning("Both compound processes and normal processes are used. This may lead to unexpected results.")
     if not check_breakdown_states_available(base_configuration):
-- 
2.43.0


From af839891dd7bffe5f9b15a46e9cbd5efe54ea9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 070/106] fix: tabu search starts from a copy of the initial
 solution, or of the base configuration if none is given

Without an initial solution the search crashed, and with one it changed the
object of the caller while evaluating it.
---
 prodsys/optimization/tabu_search.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/optimization/tabu_search.py b/prodsys/optimization/tabu_search.py
index f0fb3fc..b9b2a1b 100644
--- a/prodsys/optimization/tabu_search.py
+++ b/prodsys/optimization/tabu_search.py
@@ -235,6 +235,10 @@ def tabu_search_optimization(
     if not check_breakdown_states_available(base_configuration):
         create_default_breakdown_states(base_configuration)
 
+    if not initial_solution:
+        initial_solution = base_configuration
+    initial_solution = initial_solution.model_copy(deep=True)
+
     set_seed(hyper_parameters.seed)
 
     weights = get_weights(base_configuration, "max")
-- 
2.43.0


From 526770da5fe4a7ec8162188fc036b7a94d1c4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 071/106] fix: solutions of the mathematical optimization keep
 their own transport resources

They took those of the base configuration, so that renaming them changed the
base configuration and all other solutions.
---
 prodsys/optimization/math_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/optimization/math_opt.py b/prodsys/optimization/math_opt.py
index 783cf4a..a40000c 100644
--- a/prodsys/optimization/math_opt.py
+++ b/prodsys/optimization/math_opt.py
@@ -472,7 +472,7 @@ class MathOptimizer(BaseModel):
             new_adapter.ID = str(uuid1())
             new_adapter.resource_data = [
                 resource
-                for resource in self.adapter.resource_data
+                for resource in new_adapter.resource_data
                 if not isinstance(resource, resource_data.ProductionResourceData)
             ]
             adjust_number_of_transport_resources(
-- 
2.43.0


From a287fbff6b143d7611579b136093d0b14e0109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 072/106] fix: partial crossover exchanges machines instead of
 sharing and losing them

The second list was built from the already replaced first one, so that
individuals shared machines of the second and lost those of the first.
---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7479a20..86443bc 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -42,8 +42,10 @@ def crossover(ind1, ind2):
         adapter2.resource_data = transport_resources_2
         if crossover_type == "partial_machine":
             min_length = min(len(machines_1), len(machines_2))
-            machines_1 = machines_1[:min_length] + machines_2[min_length:]
-            machines_2 = machines_2[:min_length] + machines_1[min_length:]
+            machines_1, machines_2 = (
+                machines_1[:min_length] + machines_2[min_length:],
+                machines_2[:min_length] + machines_1[min_length:],
+            )
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From b772dff5d81d97734eb18a1f553701743144fafa Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 073/106] fix: auxiliary WIP is computed on a copy of the event
 log

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index fd05ab1..71998fd 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -961,7 +961,7 @@ class PostProcessor:
         Returns:
             pd.DataFrame: Data frame with the WIP over time for each auxiliary.
         """
-        df = self.get_auxiliary_WIP_KPI(self.df_raw)
+        df = self.get_auxiliary_WIP_KPI(self.df_raw.copy())
         return df
 
     @cached_property
-- 
2.43.0


From a50ebe3dc84a7d0a87b3a6767b1f3d5380e788f5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 074/106] fix: plotting the WIP per resource leaves the table
 of the post processor unchanged

---
 prodsys/util/kpi_visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/kpi_visualization.py b/prodsys/util/kpi_visualization.py
index ee98b1f..928d593 100644
--- a/prodsys/util/kpi_visualization.py
+++ b/prodsys/util/kpi_visualization.py
@@ -349,7 +349,7 @@ def plot_util_WIP_resource(post_processor: post_processing.PostProcessor, normal
         post_processor (post_processing.PostProcessor): Post processor of the simulation.
         normalized (bool, optional): If True, the time per state is normalized with the total time of the simulation. Defaults to True.
     """
-    df_time_per_state = post_processor.df_mean_wip_per_station
+    df_time_per_state = post_processor.df_mean_wip_per_station.copy()
     df_time_per_state['mean_wip'] = np.maximum(np.ceil(df_time_per_state['mean_wip']), 1)
     fig1 = go.Figure()
     fig1.add_trace(go.Bar(name='mean_wip', x=df_time_per_state['Resource'], y=df_time_per_state['mean_wip'], marker_color='purple', yaxis='y2'))
-- 
2.43.0


From c9f695f4d10f6da2078cccfbf2bea8124c7c6628 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 075/106] fix: auxiliary types with underscores or with a
 common beginning are told apart

---
 prodsys/util/post_processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 71998fd..c0fb713 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -941,7 +941,7 @@ class PostProcessor:
         START_USAGE_CONDITION = df["Activity"] == "started auxiliary usage"
         FINISHED_USAGE_CONDITION = df["Activity"] == "finished auxiliary usage"
 
-        df["Auxiliary_type"] = df["Product"].apply(lambda x: x.split("_")[0])
+        df["Auxiliary_type"] = df["Product"].str.rsplit("_", n=1).str[0]
         auxiliary_types = self.get_auxiliary_types()
         df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)]
 
@@ -975,7 +975,7 @@ class PostProcessor:
         df = pd.DataFrame()
         auxiliary_types = self.get_auxiliary_types()
         for auxiliary_type in auxiliary_types:
-            df_temp = self.df_raw.loc[self.df_raw["Product"].str.contains(auxiliary_type)].copy()
+            df_temp = self.df_raw.loc[self.df_raw["Product"].str.rsplit("_", n=1).str[0] == auxiliary_type].copy()
             df_temp = self.get_auxiliary_WIP_KPI(df_temp)
             df = df.combine_first(df_temp)
 
@@ -1077,7 +1077,7 @@ class PostProcessor:
             pd.DataFrame: Data frame with the auxiliary types of the resources.
         """
         df = self.df_raw.loc[self.df_raw["Activity"] == "created auxiliary"]
-        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.split("_")[0]).drop_duplicates().to_list()
+        auxiliary_types = df["Product"].drop_duplicates().str.rsplit("_", n=1).str[0].drop_duplicates().to_list()
         return auxiliary_types
 
     @cached_property
-- 
2.43.0


From 3c8ef1e0adc4e535a729581db7730c64994b194b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 076/106] fix: dynamic WIP is grouped by product type

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index c0fb713..929f59b 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -1161,7 +1161,7 @@ class PostProcessor:
         df = df.loc[df["WIP_Increment"] != 0]
 
         KPIs = []
-        df["next_Time"] = df["Time"].groupby(by="Product_type").shift(-1)
+        df["next_Time"] = df.groupby(by="Product_type")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"])
         for index, row in df.iterrows():
             if row["Product_type"] == "Total":
-- 
2.43.0


From 31d746c01da9429971b6f9d4dbed1569a73a997e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 077/106] fix: results requested after continuing a simulation
 contain the continued run

---
 prodsys/util/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prodsys/util/runner.py b/prodsys/util/runner.py
index 796ad26..366ea46 100644
--- a/prodsys/util/runner.py
+++ b/prodsys/util/runner.py
@@ -231,6 +231,7 @@ class Runner:
             time_range (int): The time range to run the simulation for.
         """
 
+        self.post_processor = None
         t_0 = time.perf_counter()
 
         self.env.run(time_range)
-- 
2.43.0


From 048e765acf58e1595fbf8f87fd9720437dbe97ae Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 078/106] fix: aggregated results of a runner respect the
 warm-up settings of the runner

---
 prodsys/util/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/runner.py b/prodsys/util/runner.py
index 366ea46..be8ec0b 100644
--- a/prodsys/util/runner.py
+++ b/prodsys/util/runner.py
@@ -335,7 +335,7 @@ class Runner:
         Returns:
             dict: The aggregated simulation results.
         """
-        p = PostProcessor(df_raw=self.event_logger.get_data_as_dataframe())
+        p = self.get_post_processor()
         return p.get_aggregated_data()
 
     def save_results_as_csv(self, save_folder="data"):
-- 
2.43.0


From d15e380991666e85abf975a79d0831aeac14dce9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 079/106] fix: a mutated candidate never keeps the identity of
 the candidate it was derived from

---
 prodsys/optimization/adapter_manipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 86443bc..5d8c8f5 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -446,8 +446,8 @@ def get_mutation_operations(
 def mutation(individual):
     mutation_operation = random.choice(get_mutation_operations(individual[0]))
     adapter_object = individual[0]
-    if mutation_operation(adapter_object):
-        individual[0].ID = str(uuid1())
+    mutation_operation(adapter_object)
+    individual[0].ID = str(uuid1())
     add_default_queues_to_resources(adapter_object)
     clean_out_breakdown_states_of_resources(adapter_object)
     adjust_process_capacities(adapter_object)
-- 
2.43.0


From df193c10c3dfbbff9158de215892a2de6513dc18 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 080/106] fix: simulated annealing and tabu search create the
 folder their results are saved in

---
 prodsys/optimization/simulated_annealing.py | 3 ++-
 prodsys/optimization/tabu_search.py         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/simulated_annealing.py b/prodsys/optimization/simulated_annealing.py
index 4565d5d..344bfa0 100644
--- a/prodsys/optimization/simulated_annealing.py
+++ b/prodsys/optimization/simulated_annealing.py
@@ -21,7 +21,7 @@ from prodsys.optimization.util import (
     check_breakdown_states_available,
     create_default_breakdown_states,
 )
-from prodsys.util.util import set_seed
+from prodsys.util.util import prepare_save_folder, set_seed
 
 sim.VERBOSE = 0
 
@@ -208,6 +208,7 @@ def simulated_annealing_optimization(
     if not initial_solution:
         initial_solution = base_configuration.model_copy(deep=True)
 
+    prepare_save_folder(save_folder)
     set_seed(hyper_parameters.seed)
 
     weights = get_weights(base_configuration, "min")
diff --git a/prodsys/optimization/tabu_search.py b/prodsys/optimization/tabu_search.py
index b9b2a1b..4c63dd5 100644
--- a/prodsys/optimization/tabu_search.py
+++ b/prodsys/optimization/tabu_search.py
@@ -22,7 +22,7 @@ from prodsys.optimization.util import (
     check_breakdown_states_available,
     create_default_breakdown_states
 )
-from prodsys.util.util import set_seed
+from prodsys.util.util import prepare_save_folder, set_seed
 
 
 class TabuSearch:
@@ -239,6 +239,7 @@ def tabu_search_optimization(
         initial_solution = base_configuration
     initial_solution = initial_solution.model_copy(deep=True)
 
+    prepare_save_folder(save_folder)
     set_seed(hyper_parameters.seed)
 
     weights = get_weights(base_configuration, "max")
-- 
2.43.0


From e7ea1f7650008f5f91c1716cc9452ba482b061e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 081/106] fix: solutions of the mathematical optimization are
 recorded with their aggregated fitness

---
 prodsys/optimization/math_opt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/math_opt.py b/prodsys/optimization/math_opt.py
index a40000c..59a25ef 100644
--- a/prodsys/optimization/math_opt.py
+++ b/prodsys/optimization/math_opt.py
@@ -530,7 +530,13 @@ class MathOptimizer(BaseModel):
                 solution_dict, save_folder, [new_adapter]
             )
             performances["0"][new_adapter.ID] = {
-                "agg_fitness": 0.0,
+                "agg_fitness": sum(
+                    value * weight
+                    for value, weight in zip(
+                        simulation_results,
+                        optimization_util.get_weights(self.adapter, "max"),
+                    )
+                ),
                 "fitness": [float(value) for value in simulation_results],
                 "time_stamp": 0.0,
                 "hash": new_adapter.hash(),
-- 
2.43.0


From 1704ab36f2417d2719995b7517a022e1d2156c59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 082/106] fix: results of the initial population are saved
 before the first generation

---
 prodsys/optimization/evolutionary_algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prodsys/optimization/evolutionary_algorithm.py b/prodsys/optimization/evolutionary_algorithm.py
index bb40ed7..d91a648 100644
--- a/prodsys/optimization/evolutionary_algorithm.py
+++ b/prodsys/optimization/evolutionary_algorithm.py
@@ -293,6 +293,9 @@ def evolutionary_algorithm_optimization(
         population, fitnesses, solution_dict, performances, save_folder, start
     )
 
+    with open(f"{save_folder}/optimization_results.json", "w") as json_file:
+        json.dump(performances, json_file)
+
     population = toolbox.select(population, len(population))
 
     for g in range(hyper_parameters.number_of_generations):
-- 
2.43.0


From 00f881b3e575433bf8984304c254a350ab127ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 083/106] fix: moving or removing a process module handles
 modules that a machine holds only partly or already holds

---
 prodsys/optimization/adapter_manipulation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 5d8c8f5..670ed74 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -239,7 +239,8 @@ def remove_process_module(adapter_object: adapters.ProductionSystemAdapter) -> b
     process_module_to_delete = random.choice(process_modules)
 
     for process in process_module_to_delete:
-        machine.process_ids.remove(process)
+        if process in machine.process_ids:
+            machine.process_ids.remove(process)
     add_setup_states_to_machine(adapter_object, machine.ID)
     return True
 
@@ -269,8 +270,10 @@ def move_process_module(adapter_object: adapters.ProductionSystemAdapter) -> boo
         return False
     process_module_to_move = random.choice(grouped_process_module_IDs)
     for process_module in process_module_to_move:
-        from_machine.process_ids.remove(process_module)
-        to_machine.process_ids.append(process_module)
+        if process_module in from_machine.process_ids:
+            from_machine.process_ids.remove(process_module)
+        if process_module not in to_machine.process_ids:
+            to_machine.process_ids.append(process_module)
     add_setup_states_to_machine(adapter_object, from_machine.ID)
     add_setup_states_to_machine(adapter_object, to_machine.ID)
     return True
-- 
2.43.0


From 9880cca902b9da7ab15a92a1bacb110751a81d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 084/106] fix: policies that are not among the options of the
 scenario can be changed

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 670ed74..6f83f32 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -394,7 +394,8 @@ def change_control_policy(adapter_object: adapters.ProductionSystemAdapter) -> b
 
     if len(possible_control_policies) < 2:
         return False
-    possible_control_policies.remove(resource.control_policy)
+    if resource.control_policy in possible_control_policies:
+        possible_control_policies.remove(resource.control_policy)
     new_control_policy = random.choice(possible_control_policies)
     resource.control_policy = new_control_policy
     return True
@@ -413,7 +414,8 @@ def change_routing_policy(adapter_object: adapters.ProductionSystemAdapter) -> N
     )
     if len(possible_routing_policies) < 2:
         return False
-    possible_routing_policies.remove(source.routing_heuristic)
+    if source.routing_heuristic in possible_routing_policies:
+        possible_routing_policies.remove(source.routing_heuristic)
     source.routing_heuristic = random.choice(possible_routing_policies)
     return True
 
-- 
2.43.0


From e640cb9953a462f632b33d94af5b094599a763dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 085/106] fix: auxiliary transformations do nothing if no
 auxiliaries are required

---
 prodsys/optimization/adapter_manipulation.py | 4 ++++
 prodsys/optimization/util.py                 | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 6f83f32..05df5c1 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -338,6 +338,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was added, False otherwise (if adding is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     queue = [
@@ -362,6 +364,8 @@ def remove_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was removed, False otherwise (if removing is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     if auxiliary.quantity_in_storages[storage_index] == 0:
diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 2d6a042..ca5c0ce 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -61,7 +61,7 @@ def get_required_auxiliaries(
     """
     auxiliary_ids = set()
     for product in adapter_object.product_data:
-        auxiliary_ids.update(product.auxiliaries)
+        auxiliary_ids.update(product.auxiliaries or [])
     if not auxiliary_ids:
         return []
     return [
-- 
2.43.0


From 8fc8c79746876fbd171faf5be88274ab9b9b9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 086/106] fix: a crossover gives resources that occur twice in
 a candidate their own IDs

---
 prodsys/optimization/adapter_manipulation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 05df5c1..cd96c14 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -25,6 +25,14 @@ from uuid import uuid1
 from prodsys.util.util import flatten
 
 
+def ensure_unique_resource_ids(adapter_object: adapters.ProductionSystemAdapter) -> None:
+    used_ids = set()
+    for resource in adapter_object.resource_data:
+        if resource.ID in used_ids:
+            resource.ID = str(uuid1())
+        used_ids.add(resource.ID)
+
+
 def crossover(ind1, ind2):
     ind1[0].ID = str(uuid1())
     ind2[0].ID = str(uuid1())
@@ -53,6 +61,8 @@ def crossover(ind1, ind2):
         adapter1.resource_data = machines_1 + transport_resources_2
         adapter2.resource_data = machines_2 + transport_resources_1
 
+    ensure_unique_resource_ids(adapter1)
+    ensure_unique_resource_ids(adapter2)
     add_default_queues_to_resources(adapter1)
     add_default_queues_to_resources(adapter2)
     clean_out_breakdown_states_of_resources(adapter1)
-- 
2.43.0


From d9f9c27e3103d8c1e9ed7224c7cd107fbd243ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 087/106] fix: inadmissible candidates can be penalised when an
 objective has no weight

---
 prodsys/optimization/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2223f7f..90662ae 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -278,7 +278,10 @@ def evaluate(
         ]
 
     if not check_valid_configuration(adapter_object, base_scenario):
-        return [-100000 / weight for weight in get_weights(base_scenario, "max")]
+        return [
+            -100000 / weight if weight else -100000
+            for weight in get_weights(base_scenario, "max")
+        ]
 
     fitness_values = []
 
-- 
2.43.0


From 0a0a2b9cb7ec03cfee7aa73f4f6c6ada2f09ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 088/106] fix: costs that are not specified in the scenario
 count as zero

---
 prodsys/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 90662ae..03b070b 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -30,7 +30,7 @@ def get_process_module_cost(
         if isinstance(process_module_cost, dict):
             process_cost = process_module_cost.get(process, 0)
         else:
-            process_cost = process_module_cost
+            process_cost = process_module_cost or 0
         sum_process_module_cost += max(
             0,
             (
@@ -99,7 +99,7 @@ def get_auxiliary_cost(
             auxiliary_cost += max(
                 0,
                 (storage - storage_before)
-                * adapter_object.scenario_data.info.auxiliary_cost,
+                * (adapter_object.scenario_data.info.auxiliary_cost or 0),
             )
     return auxiliary_cost
 
-- 
2.43.0


From 32a547f3f1e60ee10d1a7c304af3def380d0ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 089/106] fix: setup and charging states of resources are kept
 when their breakdown states are cleaned out

---
 prodsys/optimization/util.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index ca5c0ce..92b2b63 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -339,6 +339,28 @@ def create_default_breakdown_states(adapter_object: adapters.ProductionSystemAda
             )
 
 
+def get_other_state_ids(
+    resource: resource_data.RESOURCE_DATA_UNION,
+    adapter_object: adapters.ProductionSystemAdapter,
+) -> List[str]:
+    """
+    Function that returns the IDs of all states of a resource that are no breakdown states, e.g. setup or charging states.
+    """
+    breakdown_state_ids = set(
+        state.ID
+        for state in adapter_object.state_data
+        if isinstance(
+            state,
+            (state_data.BreakDownStateData, state_data.ProcessBreakDownStateData),
+        )
+    )
+    return [
+        state_id
+        for state_id in resource.state_ids
+        if state_id not in breakdown_state_ids
+    ]
+
+
 def clean_out_breakdown_states_of_resources(
     adapter_object: adapters.ProductionSystemAdapter,
 ):
@@ -350,7 +372,9 @@ def clean_out_breakdown_states_of_resources(
             or BreakdownStateNamingConvention.PROCESS_MODULE_BREAKDOWN_STATE.value
             in state.ID
         ):
-            resource.state_ids = get_breakdown_state_ids_of_machine_with_processes(
+            resource.state_ids = get_other_state_ids(
+                resource, adapter_object
+            ) + get_breakdown_state_ids_of_machine_with_processes(
                 resource.process_ids, adapter_object
             )
         elif isinstance(resource, resource_data.TransportResourceData) and any(
@@ -359,7 +383,7 @@ def clean_out_breakdown_states_of_resources(
             if state.ID
             == BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
         ):
-            resource.state_ids = [
+            resource.state_ids = get_other_state_ids(resource, adapter_object) + [
                 BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
             ]
 
-- 
2.43.0


From 6009576252c6a104c7892879eb85f3c404480196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 090/106] fix: machines with a separate input location are
 judged by their own position

---
 prodsys/optimization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 03b070b..70587c4 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -143,7 +143,7 @@ def valid_positions(configuration: adapters.ProductionSystemAdapter) -> bool:
         return False
 
     positions = [
-        machine.input_location
+        machine.location
         for machine in adapters.get_production_resources(configuration)
     ]
     possible_positions = configuration.scenario_data.options.positions
-- 
2.43.0


From fc84cced579e8fbac929366dfe4b3cfe275765c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 091/106] fix: separate input locations of sinks are considered
 when locations are compared

---
 prodsys/adapters/adapter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 1567ef4..04cdf17 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -944,9 +944,7 @@ def assert_no_redudant_locations(adapter: ProductionSystemAdapter):
     sink_locations = []
     for sink in adapter.sink_data:
         sink_locations += get_location_of_locatable(sink)
-    sink_locations = remove_duplicate_locations(
-        [sink.location for sink in adapter.sink_data]
-    )
+    sink_locations = remove_duplicate_locations(sink_locations)
     store_locations = []
     for store in adapter.queue_data:
         if not isinstance(store, queue_data.StoreData):
-- 
2.43.0


From a8831e976770b1ee0288063da7ae1094ed8c15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 092/106] fix: give the router of the routing environment its
 auxiliary and product factories

---
 prodsys/control/routing_control_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index 1767897..13621bf 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -123,7 +123,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.chose_resource_event = events.Event(self.runner.env)
         agent_routing_heuristic = partial(router.agent_routing_heuristic, self)
-        self.router = router.Router(self.runner.resource_factory, self.runner.sink_factory, agent_routing_heuristic)  
+        self.router = router.Router(self.runner.resource_factory, self.runner.sink_factory, self.runner.auxiliary_factory, agent_routing_heuristic, self.runner.product_factory)  
         
         sources = self.runner.source_factory.sources
         for source in sources:
-- 
2.43.0


From cf16eeb1e4139924d3e44c8b89ba0fca3f565a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 093/106] fix: wait for the agent's decision before a
 production request is routed

---
 prodsys/simulation/router.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index 50997ed..1cc3281 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -191,7 +191,12 @@ class Router:
                 }
             )
 
-        self.routing_heuristic(production_requests)
+        decision = self.routing_heuristic(production_requests)
+        if decision is not None:
+            # resources can get blocked until the decision is taken, then it has to be taken anew
+            yield decision
+            if not self.get_requests_with_non_blocked_resources(production_requests[:1]):
+                return
         if not production_requests:
             return
         routed_production_request = production_requests.pop(0)
@@ -841,6 +846,7 @@ def agent_routing_heuristic(
         return
     gym_env.set_possible_requests(possible_requests)
     gym_env.interrupt_simulation_event.succeed()
+    return gym_env.runner.env.timeout(0)
 
 
 ROUTING_HEURISTIC = {
-- 
2.43.0


From b626df5dece029d138341dd8c8aebce0c7a8946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 094/106] fix: start every episode of the control environments
 with counters at zero

---
 prodsys/control/routing_control_env.py    | 2 ++
 prodsys/control/sequencing_control_env.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index 13621bf..f2c4fa5 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -120,6 +120,8 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         super().reset(seed=seed)
 
         self.runner.initialize_simulation()
+        self.step_count = 0
+        self.reward = 0
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.chose_resource_event = events.Event(self.runner.env)
         agent_routing_heuristic = partial(router.agent_routing_heuristic, self)
diff --git a/prodsys/control/sequencing_control_env.py b/prodsys/control/sequencing_control_env.py
index d900316..14ce492 100644
--- a/prodsys/control/sequencing_control_env.py
+++ b/prodsys/control/sequencing_control_env.py
@@ -124,6 +124,8 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
         super().reset(seed=seed)
 
         self.runner.initialize_simulation()
+        self.step_count = 0
+        self.reward = 0
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.resource_controller = self.runner.resource_factory.get_resource(
             self.resource_id
-- 
2.43.0


From abc860fe5ae6520f01466ebdeb885c88b95b2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 095/106] fix: accept the options of gymnasium's reset in the
 control environments

---
 prodsys/control/routing_control_env.py    | 4 ++--
 prodsys/control/sequencing_control_env.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index f2c4fa5..a58c317 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -109,7 +109,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         """
         pass
 
-    def reset(self, seed=None):
+    def reset(self, seed=None, options=None):
         """
         Reset env for new episode and run until first point of observation.
 
@@ -117,7 +117,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
             seed (Optional[int], optional): The seed for the environment. Defaults to None.
             options (Optional[dict], optional): The options for the environment. Defaults to None.
         """
-        super().reset(seed=seed)
+        super().reset(seed=seed, options=options)
 
         self.runner.initialize_simulation()
         self.step_count = 0
diff --git a/prodsys/control/sequencing_control_env.py b/prodsys/control/sequencing_control_env.py
index 14ce492..8ac6678 100644
--- a/prodsys/control/sequencing_control_env.py
+++ b/prodsys/control/sequencing_control_env.py
@@ -113,7 +113,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
         """
         pass
 
-    def reset(self, seed=None):
+    def reset(self, seed=None, options=None):
         """
         Reset env for new episode and run until first point of observation.
 
@@ -121,7 +121,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
             seed (Optional[int], optional): The seed for the environment. Defaults to None.
             options (Optional[dict], optional): The options for the environment. Defaults to None.
         """
-        super().reset(seed=seed)
+        super().reset(seed=seed, options=options)
 
         self.runner.initialize_simulation()
         self.step_count = 0
-- 
2.43.0


From 15decce7f627a6d5b2cd4d76bf2d20d083e74db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 096/106] fix: start a batch only if a full batch of requests
 is waiting

---
 prodsys/simulation/control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index d31e414..c820586 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -484,7 +484,7 @@ class BatchController(Controller):
             for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or (len(self.requests) < batch_size and len(self.requests) > 0):
+            if self.resource.full or len(self.requests) < batch_size:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
-- 
2.43.0


From e1e2e7a1aa8e34943dca09335f760e130865fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:29 +0000
Subject: [PATCH 097/106] fix: start a batch only when there is a free process
 for each of its products

---
 prodsys/simulation/control.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index c820586..539f1a3 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -428,13 +428,14 @@ class BatchController(Controller):
 
         return events
 
-    def wait_for_free_process(self, resource: resources.Resource, process: process.Process) -> Generator[List[state.State], None, None]:
+    def wait_for_free_process(self, resource: resources.Resource, process: process.Process, number: int = 1) -> Generator[List[state.State], None, None]:
         """
         Wait for free processes of a resource.
 
         Args:
             resource (resources.Resource): The resource.
             process (process.Process): The process.
+            number (int): The number of processes that have to be free at the same time.
 
         Returns:
             Generator: The generator yields when processes are free.
@@ -443,10 +444,12 @@ class BatchController(Controller):
             Generator: The generator yields lists of free states.
         """
         possible_states = resource.get_processes(process)
+        if len(possible_states) < number:
+            raise ValueError(f"Resource {resource.data.ID} cannot perform process {process.process_data.ID} for {number} products at the same time.")
         while True:
             free_states = resource.get_free_processes(process)
-            if free_states:
-                return free_states
+            if len(free_states) >= number:
+                return free_states[:number]
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
             yield events.AnyOf(
                 self.env,
@@ -531,13 +534,13 @@ class BatchController(Controller):
                 simulation_product = product.product_router.product_factory.get_product(product_data.ID)
                 products.append(simulation_product)
 
-            for simulation_product in products:
-                production_states: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            production_states: List[state.State] = yield from self.wait_for_free_process(resource, process, number=len(products))
 
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
             yield self.env.process(self.run_process(production_states, products, process))
             for state in production_states:
-                state.process = None
+                if state.process is not None and not state.process.is_alive:
+                    state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
-- 
2.43.0


From 3fed3ac904b7ae7f9f964bfbb1b71644a8dc71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 098/106] fix: charge production and batch resources only at
 rest and before further work is started

---
 prodsys/simulation/control.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 539f1a3..09c80e8 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -233,17 +233,17 @@ class ProductionController(Controller):
         """
         while True:
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Waiting for request or process to finish"})
-            if self.resource.requires_charging:
-                yield self.env.process(self.resource.charge())
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
+            if self.resource.requires_charging and not any(process.is_alive for process in self.running_processes):
+                yield self.env.process(self.resource.charge())
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
             for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
+            if self.resource.requires_charging or self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full}) or all requests reserved ({self.reserved_requests_count == len(self.requests)})"})
                 continue
             self.control_policy(self.requests)
@@ -482,12 +482,14 @@ class BatchController(Controller):
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
+            if self.resource.requires_charging and not any(process.is_alive for process in self.running_processes):
+                yield self.env.process(self.resource.charge())
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
             for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or len(self.requests) < batch_size:
+            if self.resource.requires_charging or self.resource.full or len(self.requests) < batch_size:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
-- 
2.43.0


From d6f818085d992a6604dcca2ff4eb962ede1e3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 099/106] fix: draw the battery time once per charge

---
 prodsys/simulation/state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 6b7ed70..baec5cc 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -724,9 +724,12 @@ class ChargingState(State):
     interrupted: bool = False
 
     battery_usage_time_since_charging: float = 0.0
+    battery_time: Optional[float] = None
 
     def requires_charging(self) -> bool:
-        return self.battery_usage_time_since_charging >= (1 - MINIMUM_BATTERY_LEVEL) * self.battery_time_model.get_next_time()
+        if self.battery_time is None:
+            self.battery_time = self.battery_time_model.get_next_time()
+        return self.battery_usage_time_since_charging >= (1 - MINIMUM_BATTERY_LEVEL) * self.battery_time
 
     def prepare_for_run(self):
         self.finished_process = events.Event(self.env)
@@ -780,6 +783,7 @@ class ChargingState(State):
         debug_logging(self, f"process finished")
         self.state_info.log_end_state(self.env.now, StateTypeEnum.charging)
         self.battery_usage_time_since_charging = 0
+        self.battery_time = None
         self.finished_process.succeed()
 
     def update_done_in(self):
-- 
2.43.0


From f8a824a6cbdcf585d177d931a639c249187c13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:50 +0000
Subject: [PATCH 100/106] fix: observe waiting items of output queues and of
 finished products

---
 prodsys/simulation/observer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index 7b1f854..910c242 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import List, TYPE_CHECKING
+from typing import List, Optional, TYPE_CHECKING
 
 from pydantic import BaseModel, ConfigDict
 
@@ -20,7 +20,7 @@ class ProcessObservation(BaseModel):
 class QueueObservation(BaseModel):
     product: str
     activity: str
-    process: str
+    process: Optional[str] = None
     next_resource: str
     waiting_since: float
 
@@ -46,7 +46,7 @@ def observe_input_queue(resource: resources.Resource, product_factory: product_f
             production_process_info = QueueObservation(
                 product=product_data.ID,
                 activity="waiting",
-                process=product.next_prodution_process.process_data.ID,
+                process=product.next_prodution_process.process_data.ID if product.next_prodution_process else None,
                 next_resource=product.current_locatable.data.ID,
                 waiting_since=product.product_info.event_time
             )
@@ -63,8 +63,8 @@ def observe_output_queue(resource: resources.Resource, product_factory: product_
             production_process_info = QueueObservation(
                 product=product_data.ID,
                 activity="waiting",
-                process=product.next_prodution_process,
-                next_resource=product.current_locatable,
+                process=product.next_prodution_process.process_data.ID if product.next_prodution_process else None,
+                next_resource=product.current_locatable.data.ID,
                 waiting_since=product.product_info.event_time
             )
             queue_observation.append(production_process_info)
-- 
2.43.0


From 498519394145048b99f90576b58b0a8b570e1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:50 +0000
Subject: [PATCH 101/106] fix: run learning environments without progress bar
 whatever has been imported

---
 prodsys/simulation/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/sim.py b/prodsys/simulation/sim.py
index c2a2b18..df145bc 100644
--- a/prodsys/simulation/sim.py
+++ b/prodsys/simulation/sim.py
@@ -102,7 +102,7 @@ class Environment(core.Environment):
         Args:
             request (request.Request): The request to process.
         """
-        if VERBOSE == 1:
+        if VERBOSE == 1 and self.pbar is not None:
             now = round(self.now)
             if now > self.last_update:
                 self.pbar.update(now - self.last_update)
-- 
2.43.0


From 1f4a6f1615011132f5e35e5ddff0bc62cefc3b1c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:30:27 +0000
Subject: [PATCH 102/106] fix: name the product in its dynamic throughput time

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 929f59b..7861e72 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -320,7 +320,7 @@ class PostProcessor:
                     name=performance_indicators.KPIEnum.DYNAMIC_THROUGHPUT_TIME,
                     context=context,
                     value=values["Throughput_time"],
-                    product=index,
+                    product=values["Product"],
                     product_type=values["Product_type"],
                     start_time=values["Start_time"],
                     end_time=values["End_time"],
-- 
2.43.0


From 9d9edd7ec841d85049f77564fb5f119edcd40e54 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:30:27 +0000
Subject: [PATCH 103/106] fix: find KPIs by context whatever the order of its
 levels

---
 prodsys/models/performance_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/performance_data.py b/prodsys/models/performance_data.py
index b430fff..0edf5be 100644
--- a/prodsys/models/performance_data.py
+++ b/prodsys/models/performance_data.py
@@ -98,7 +98,7 @@ class Performance(BaseModel):
     kpis: List[KPI_UNION]
 
     def get_kpi_for_context(self, context: Tuple[KPILevelEnum, ...]) -> List[KPI_UNION]:
-        return [kpi for kpi in self.kpis if context == kpi.context]
+        return [kpi for kpi in self.kpis if tuple(sorted(context)) == kpi.context]
 
     def get_kpi_for_name(self, name: KPIEnum) -> List[KPI_UNION]:
         return [kpi for kpi in self.kpis if name == kpi.name]
@@ -106,4 +106,4 @@ class Performance(BaseModel):
     def get_kpi_for_context_and_name(
         self, context: Tuple[KPILevelEnum, ...], name: KPIEnum
     ) -> List[KPI_UNION]:
-        return [kpi for kpi in self.kpis if context == kpi.context and name == kpi.name]
+        return [kpi for kpi in self.kpis if tuple(sorted(context)) == kpi.context and name == kpi.name]
-- 
2.43.0


From 351f8aa0499040be3ac6bb24da36372d5c037663 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 104/106] fix: accept resources with a common input and output
 location

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 04cdf17..eec1040 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -917,7 +917,7 @@ def get_location_of_locatable(locatable: Union[resource_data_module.ProductionRe
     locations = [locatable.location]
     if hasattr(locatable, "input_location") and locatable.input_location != locatable.location:
         locations.append(locatable.input_location)
-    if hasattr(locatable, "output_location") and locatable.output_location != locatable.location:
+    if hasattr(locatable, "output_location") and locatable.output_location not in locations:
         locations.append(locatable.output_location)
     return locations
 
-- 
2.43.0


From 6b32cdc99cdb56a11f5b92a8c925f05d2524e75d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 105/106] fix: notice every required process that is not
 available

---
 prodsys/adapters/adapter.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index eec1040..b6f4975 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -881,17 +881,13 @@ class ProductionSystemAdapter(ABC, BaseModel):
         self.scenario_data = scenario_data_module.ScenarioData.parse_file(scenario_file_path)
 
     def validate_proceses_available(self):
-        required_processes = set(
-            util.flatten([product.processes for product in self.product_data])
-        )
-        available_processes = set()
-        for resource in self.resource_data:
-            for process in resource.process_ids:
-                available_processes.add(process)
-        if required_processes > available_processes:
-            raise ValueError(
-                f"The processes {required_processes - available_processes} are not available."
-            )
+        """
+        Checks if all processes that are required by the products are available in the resources.
+
+        Raises:
+            ValueError: If not all required process are available.
+        """
+        assert_required_processes_in_resources_available(self)
 
     def validate_configuration(self):
         """
-- 
2.43.0


From 9ae5597f4e705de70a7882d6489cf5c7e019b50e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 106/106] fix: require that the transport processes of
 auxiliaries are available

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index b6f4975..c9cce62 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1263,7 +1263,7 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     available = set(list(util.flatten([resource.process_ids for resource in configuration.resource_data])))
     required = util.flatten([product.processes for product in configuration.product_data if not isinstance(product.processes, dict)])
     required_dict_processes = util.flatten([[*product.processes.keys(), *util.flatten(product.processes.values())] for product in configuration.product_data if isinstance(product.processes, dict)])
-    required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data])
+    required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data] + [auxiliary.transport_process for auxiliary in configuration.auxiliary_data or []])
 
     required_production_processes = get_production_processes_from_ids(configuration, required)
     required_transport_processes = get_transport_processes_from_ids(configuration, required)
-- 
2.43.0

