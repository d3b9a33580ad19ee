From 6dbeeafcdbaf7052e2a6c54ab13c4656eb756d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 001/101] fix: accept both spellings of the euclidean metric in
 DistanceTimeModel

The data model only allowed 'euclidian' while the simulation and the express
interface only knew 'euclidean', so the metric could never be simulated.
---
 prodsys/models/time_model_data.py | 2 +-
 prodsys/simulation/time_model.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index e64bb12..b54f986 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -316,7 +316,7 @@ class DistanceTimeModelData(CoreAsset):
 
     speed: float
     reaction_time: float
-    metric: Literal["manhattan", "euclidian"] = "manhattan"
+    metric: Literal["manhattan", "euclidian", "euclidean"] = "manhattan"
 
     def hash(self) -> str:
         """
diff --git a/prodsys/simulation/time_model.py b/prodsys/simulation/time_model.py
index 13c565a..20460c3 100644
--- a/prodsys/simulation/time_model.py
+++ b/prodsys/simulation/time_model.py
@@ -233,7 +233,7 @@ class DistanceTimeModel(TimeModel):
         Returns:
             float: The distance between the two points.
         """
-        if self.time_model_data.metric == "euclidean":
+        if self.time_model_data.metric in ("euclidian", "euclidean"):
             return np.linalg.norm(np.array(origin) - np.array(target))
         elif self.time_model_data.metric == "manhattan":
             return np.sum(np.abs(np.array(origin) - np.array(target)))
-- 
2.43.0


From b1307aee8cb087f29b79e1d95c113285c6f4bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 002/101] fix: validating a demanded compound process without
 capability members must not crash

---
 prodsys/adapters/adapter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 587bf58..a5ca96f 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1154,8 +1154,9 @@ def get_contained_required_capability_processes_from_compound_processes(
             processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
             if len(processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            process = processes[0]
-            processes.append(process)
+            if processes:
+                process = processes[0]
+                processes.append(process)
     return processes
 
 
-- 
2.43.0


From 0774d4889c804b4e6bc154c7ad07067531e1c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 003/101] fix: a free process slot must not be taken by two
 requests at the same instant

Between choosing a free state and starting its process two simulation events
pass in which a second request could choose the same state, so that both jobs
ran on one state (wrong log entries, 'Event has already been triggered').
---
 prodsys/simulation/control.py   | 4 ++++
 prodsys/simulation/resources.py | 2 +-
 prodsys/simulation/state.py     | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a69c5a5..2f558cf 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -95,6 +95,8 @@ class Controller(ABC, BaseModel):
         while True:
             free_state = resource.get_free_process(process)
             if free_state is not None:
+                # other requests must not take the state before its process is started
+                free_state.reserved = True
                 return free_state
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting for free process"})
             yield events.AnyOf(
@@ -284,6 +286,7 @@ class ProductionController(Controller):
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
             yield self.env.process(self.run_process(production_state, product, process))
             production_state.process = None
+            production_state.reserved = False
 
             product_put_events = self.put_product_to_output_queue(resource, [product])
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
@@ -838,6 +841,7 @@ class TransportController(Controller):
             yield self.env.process(self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step))
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Arrived at {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
             transport_state.process = None
+        transport_state.reserved = False
 
     
     def get_target_location(self, target: product.Locatable, empty_transport: bool, last_transport_step: bool) -> list[float]:
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 54c3a51..99f3836 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -265,7 +265,7 @@ class Resource(BaseModel, ABC, resource.Resource):
             Optional[state.State]: The state of the resource for the process.
         """
         for actual_state in self.production_states:
-            if actual_state.state_data.ID == process.process_data.ID and (
+            if actual_state.state_data.ID == process.process_data.ID and not actual_state.reserved and (
                 actual_state.process is None or not actual_state.process.is_alive
             ):
                 return actual_state
diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7888c10..e28072e 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -216,6 +216,7 @@ class State(ABC, BaseModel):
     finished_process: events.Event = Field(default=None, init=False)
     resource: resources.Resource = Field(init=False, default=None)
     process: Optional[events.Process] = Field(default=None)
+    reserved: bool = Field(default=False)
     state_info: StateInfo = Field(None)
 
     model_config=ConfigDict(arbitrary_types_allowed=True)
-- 
2.43.0


From bf995745c18856b012bf26ad64f58dbfde911545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 004/101] fix: interrupted states must also await failures that
 start while they wait

---
 prodsys/simulation/state.py | 38 +++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index e28072e..49cd552 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -252,6 +252,20 @@ class State(ABC, BaseModel):
         except:
             raise RuntimeError(f"state {self.state_data.ID} is allready succeded!!")
 
+    def wait_until_active(self) -> Generator:
+        """
+        Waits until the state and its resource are active at the same time. A failure that starts while
+        waiting for the end of another failure replaces the active event, so it has to be awaited, too.
+
+        Yields:
+            Generator: The events that have to be awaited.
+        """
+        while True:
+            active, resource_active = self.active, self.resource.active
+            yield events.AllOf(self.env, [active, resource_active])
+            if self.active is active and self.resource.active is resource_active:
+                return
+
     @abstractmethod
     def process_state(self) -> Generator:
         """
@@ -319,10 +333,10 @@ class ProductionState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -335,7 +349,7 @@ class ProductionState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -431,10 +445,10 @@ class TransportState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -447,7 +461,7 @@ class TransportState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -630,10 +644,10 @@ class SetupState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 running_processes = [
                     state.process
                     for state in self.resource.production_states
@@ -653,7 +667,7 @@ class SetupState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.state_info.log_end_interrupt_state(
@@ -730,10 +744,10 @@ class ChargingState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
@@ -746,7 +760,7 @@ class ChargingState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
-- 
2.43.0


From 2d2b72a529e38208aab224078d94a2435cf5e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 005/101] fix: a changeover must exclude jobs and other
 changeovers that begin at the same instant

---
 prodsys/simulation/control.py   |  9 ++--
 prodsys/simulation/resources.py | 76 +++++++++++++++++++++++----------
 prodsys/simulation/state.py     |  7 +--
 3 files changed, 60 insertions(+), 32 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 2f558cf..b155504 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -275,7 +275,7 @@ class ProductionController(Controller):
         product = process_request.get_product()
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting setup for process for {product.product_data.ID}"})
 
-        yield self.env.process(resource.setup(process))
+        setup_usage = yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
             product_retrieval_events = self.get_next_product_for_process(resource, product)
@@ -285,6 +285,7 @@ class ProductionController(Controller):
             production_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
             yield self.env.process(self.run_process(production_state, product, process))
+            resource.end_setup_usage(setup_usage)
             production_state.process = None
             production_state.reserved = False
 
@@ -520,7 +521,7 @@ class BatchController(Controller):
         production_states = []
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting setup for process for {product.product_data.ID} with batch size {batch_size}"})
 
-        yield self.env.process(resource.setup(process))
+        setup_usage = yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
             product_retrieval_events = self.get_next_product_for_process(resource, process_request)
@@ -536,6 +537,7 @@ class BatchController(Controller):
 
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
             yield self.env.process(self.run_process(production_states, products, process))
+            resource.end_setup_usage(setup_usage)
             for state in production_states:
                 state.process = None
 
@@ -786,7 +788,7 @@ class TransportController(Controller):
         route_to_target = process_request.get_route()
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting setup for process for {product.product_data.ID}"})
 
-        yield self.env.process(resource.setup(process))
+        setup_usage = yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
             if origin.data.ID != self._current_locatable.data.ID:
@@ -804,6 +806,7 @@ class TransportController(Controller):
             transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport of {product.product_data.ID}"})
             yield self.env.process(self.run_transport(transport_state, product, route_to_target, empty_transport=False))
+            resource.end_setup_usage(setup_usage)
 
             product_put_events = self.put_product_to_input_queue(target, product)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 99f3836..851420e 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -40,6 +40,8 @@ class Resource(BaseModel, ABC, resource.Resource):
         active (events.Event): The event that is triggered when the resource is active.
         current_setup (PROCESS_UNION): The current setup.
         reserved_setup (PROCESS_UNION): The reserved setup.
+        setup_finished (events.Event): The event that is triggered when the setup was changed.
+        setup_usages (List[events.Event]): The jobs that were started with the current setup and are not done yet.
     """
     env: sim.Environment
     data: RESOURCE_DATA_UNION
@@ -55,6 +57,8 @@ class Resource(BaseModel, ABC, resource.Resource):
     active: events.Event = Field(default=None, init=False)
     current_setup: PROCESS_UNION = Field(default=None, init=False)
     reserved_setup: PROCESS_UNION = Field(default=None, init=False)
+    setup_finished: events.Event = Field(default=None, init=False)
+    setup_usages: List[events.Event] = Field(default_factory=list, init=False)
 
     model_config=ConfigDict(arbitrary_types_allowed=True, extra="allow")
 
@@ -201,6 +205,7 @@ class Resource(BaseModel, ABC, resource.Resource):
         resource.Resource.__init__(self, self.env, capacity=self.data.capacity)
         self.active = events.Event(self.env).succeed()
         self.got_free = events.Event(self.env)
+        self.setup_finished = events.Event(self.env)
         for actual_state in self.states + self.production_states + self.setup_states + self.charging_states:
             actual_state.activate_state()
         for actual_state in self.states:
@@ -398,26 +403,15 @@ class Resource(BaseModel, ABC, resource.Resource):
         Yields:
             Generator: The type of the yield depends on the process.
         """
-        if self.current_setup is None:
-            yield self.env.process(util.trivial_process(self.env))
-            self.current_setup = _process
-            return
-        if self.reserved_setup:
-            setup_to_compare = self.reserved_setup
-        else:
-            setup_to_compare = self.current_setup
-
-        if setup_to_compare.process_data.ID == _process.process_data.ID:
-            yield self.env.process(self.get_free_of_setups())
-            yield self.env.process(util.trivial_process(self.env))
-            return
-
-        for input_state in self.setup_states:
-            if (
-                input_state.state_data.target_setup == _process.process_data.ID
-                and input_state.state_data.origin_setup
-                == setup_to_compare.process_data.ID
-            ):
+        while True:
+            if self.current_setup is None:
+                self.current_setup = _process
+                yield self.env.process(util.trivial_process(self.env))
+            elif self.current_setup.process_data.ID == _process.process_data.ID or not self.get_setup_states(_process):
+                yield self.env.process(self.get_free_of_setups())
+                yield self.env.process(util.trivial_process(self.env))
+            elif not self.reserved_setup:
+                input_state = self.get_setup_states(_process)[0]
                 self.reserve_setup(_process)
                 yield self.env.process(self.get_free_of_setups())
                 input_state.prepare_for_run()
@@ -428,10 +422,46 @@ class Resource(BaseModel, ABC, resource.Resource):
                 input_state.process = None
                 self.current_setup = _process
                 self.unreserve_setup()
+                if not self.setup_finished.triggered:
+                    self.setup_finished.succeed()
+            if self.reserved_setup:
+                # another job changes the setup, decide again when it is done
+                if self.setup_finished.triggered:
+                    self.setup_finished = events.Event(self.env)
+                yield self.setup_finished
+                continue
+            if self.current_setup.process_data.ID != _process.process_data.ID and self.get_setup_states(_process):
+                continue
+            setup_usage = events.Event(self.env)
+            self.setup_usages.append(setup_usage)
+            return setup_usage
 
-        else:
-            yield self.env.process(self.get_free_of_setups())
-            yield self.env.process(util.trivial_process(self.env))
+    def get_setup_states(self, _process: PROCESS_UNION) -> List[state.SetupState]:
+        """
+        Returns the setup states that change the setup of the resource from its current setup to the process.
+
+        Args:
+            _process (PROCESS_UNION): The process to set up the resource for.
+
+        Returns:
+            List[state.SetupState]: The setup states.
+        """
+        return [
+            setup_state
+            for setup_state in self.setup_states
+            if setup_state.state_data.target_setup == _process.process_data.ID
+            and setup_state.state_data.origin_setup == self.current_setup.process_data.ID
+        ]
+
+    def end_setup_usage(self, setup_usage: events.Event) -> None:
+        """
+        Ends the usage of the current setup by a job. Has to be called when the job does not need the setup anymore.
+
+        Args:
+            setup_usage (events.Event): The usage of the setup, returned by the setup method.
+        """
+        self.setup_usages.remove(setup_usage)
+        setup_usage.succeed()
 
 
 class ProductionResource(Resource):
diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 49cd552..43a0325 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -648,13 +648,8 @@ class SetupState(State):
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
                 yield from self.wait_until_active()
-                running_processes = [
-                    state.process
-                    for state in self.resource.production_states
-                    if (state.process and state.process.is_alive)
-                ]
                 debug_logging(self, f"waiting for running processes to finish")
-                yield events.AllOf(self.env, running_processes)
+                yield events.AllOf(self.env, self.resource.setup_usages)
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
-- 
2.43.0


From d0ab881c4a85d210bdd19848f3e76fd46faf8d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 006/101] fix: overlapping process breakdowns must not
 reactivate shared setup states early

---
 prodsys/simulation/state.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 43a0325..fc70568 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -217,6 +217,7 @@ class State(ABC, BaseModel):
     resource: resources.Resource = Field(init=False, default=None)
     process: Optional[events.Process] = Field(default=None)
     reserved: bool = Field(default=False)
+    deactivations: int = Field(default=0)
     state_info: StateInfo = Field(None)
 
     model_config=ConfigDict(arbitrary_types_allowed=True)
@@ -236,9 +237,12 @@ class State(ABC, BaseModel):
 
     def deactivate(self):
         """
-        Deactivates the state by setting the active event to a new event which is not yet triggered.
+        Deactivates the state by setting the active event to a new event which is not yet triggered. A state
+        that is already inactive keeps its event, it has to be activated as often as it was deactivated.
         """
-        self.active = events.Event(self.env)
+        self.deactivations += 1
+        if self.active.triggered:
+            self.active = events.Event(self.env)
 
     def activate(self):
         """
@@ -247,6 +251,9 @@ class State(ABC, BaseModel):
         Raises:
             RuntimeError: If the state is allready active.
         """
+        self.deactivations -= 1
+        if self.deactivations > 0:
+            return
         try:
             self.active.succeed()
         except:
-- 
2.43.0


From f22aa280f12a18dcfe8fe79816fb7ed2161f0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 007/101] fix: nearest origin transport control policies must
 not fail on the vehicle's or a store's location

---
 prodsys/simulation/control.py |  4 ++--
 prodsys/simulation/store.py   | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index b155504..29eec4c 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -1000,7 +1000,7 @@ def nearest_origin_and_longest_target_queues_transport_control_policy(requests:
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
                 - x.target.get_output_queue_length()
                 )
     )
@@ -1016,7 +1016,7 @@ def nearest_origin_and_shortest_target_input_queues_transport_control_policy(req
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
             x.target.get_input_queue_length()
             )
     )
diff --git a/prodsys/simulation/store.py b/prodsys/simulation/store.py
index d1cb786..cab2c49 100644
--- a/prodsys/simulation/store.py
+++ b/prodsys/simulation/store.py
@@ -109,6 +109,24 @@ class Store(Queue):
         super().__init__(env, data)
         self.data: queue_data.StoreData = data
     
+    def get_input_queue_length(self) -> int:
+        """
+        Returns the number of items in the store. Needed for transport control policies that consider the queues of the target.
+
+        Returns:
+            int: The number of items in the store.
+        """
+        return len(self.items)
+
+    def get_output_queue_length(self) -> int:
+        """
+        Returns the number of items in the store. Needed for transport control policies that consider the queues of the target.
+
+        Returns:
+            int: The number of items in the store.
+        """
+        return len(self.items)
+
     def get_location(self):
         return self.data.location
 
-- 
2.43.0


From 49baa1a2f9cc05bc0cbcae86aa4861eadcf08e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 008/101] fix: processes must be looked up by their exact ID

---
 prodsys/factories/process_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index 397e46d..c98cb98 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -126,7 +126,7 @@ class ProcessFactory(BaseModel):
         Returns:
             Optional[process.PROCESS_UNION]: Process object based on the given ID.
         """
-        pr = [pr for pr in self.processes if pr.process_data.ID in ID]
+        pr = [pr for pr in self.processes if pr.process_data.ID == ID]
         if not pr:
             raise ValueError(f"Process with ID {ID} not found")
         return pr.pop()
-- 
2.43.0


From f11ec74e98789038d77a44ae1841f7829f68dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 009/101] fix: LIFO must choose the latest request each time,
 not alternate the order

---
 prodsys/simulation/control.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 29eec4c..f513312 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -952,12 +952,14 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (reverse the list).
+    Sort the requests according to the LIFO principle (the latest request comes first). The remaining requests
+    stay in the order of their arrival, because the policy is applied again each time a request is chosen.
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.reverse()
+    if requests:
+        requests.insert(0, requests.pop())
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
-- 
2.43.0


From 96e389c8cba3cef2ab4b93f93cd6b2120973652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 010/101] fix: a started request must not occupy two slots of a
 resource before it is popped

---
 prodsys/simulation/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 851420e..dcf2ab5 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -126,7 +126,7 @@ class Resource(BaseModel, ABC, resource.Resource):
             return True
         return (
             self.capacity_current_setup
-            - (len(self.controller.running_processes) + self.controller.reserved_requests_count)
+            - len(self.controller.running_processes)
         ) <= 0
     
     @property
-- 
2.43.0


From 0f104417c42107bf20ae86c4647a4bf1697bf1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 011/101] fix: a transport resource with several slots must not
 start more jobs than it has requests

---
 prodsys/simulation/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index f513312..5b4259c 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -735,10 +735,11 @@ class TransportController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or not self.requests:
+            if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
+            self.reserved_requests_count += 1
             running_process = self.env.process(self.start_process())
             self.running_processes.append(running_process)
             if not self.resource.full:
@@ -779,6 +780,7 @@ class TransportController(Controller):
         """
         yield self.env.timeout(0)
         process_request = self.requests.pop(0)
+        self.reserved_requests_count -= 1
 
         resource = process_request.get_resource()
         process = process_request.get_process()
-- 
2.43.0


From de1b9c5e11388571f73a58d9b0f67ec70e538286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 012/101] fix: a batch machine must process batches of equal
 products within its capacity

The batch controller removed one request per batch, mixed product types and processes, loaded
products that it did not process and overwrote states of batches that were still running.
---
 prodsys/simulation/control.py | 89 ++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 5b4259c..63ab0d4 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -362,36 +362,52 @@ class BatchController(Controller):
         else:
             raise ValueError("Resource is not a ProductionResource")
 
+    def get_next_batch(self) -> List[request_module.Request]:
+        """
+        Get the requests of the next complete batch according to the order of the requests. A batch consists of
+        requests of the same process for products of the same type.
+
+        Returns:
+            List[request_module.Request]: The requests of the batch, empty if there is no complete batch.
+        """
+        batch_size = self.get_batch_size(self.resource)
+        batches: dict = {}
+        for request in self.requests:
+            batch = batches.setdefault(
+                (request.get_process().process_data.ID, request.get_product().product_data.product_type), []
+            )
+            batch.append(request)
+            if len(batch) == batch_size:
+                return batch
+        return []
+
     def get_next_product_for_process(
-        self, resource: resources.Resource, process_request: request_module.Request
+        self, resource: resources.Resource, batch: List[request_module.Request]
     ) -> List[events.Event]:
         """
-        Get the next batch of products for a process. The products are removed (get) from the input queues of the resource.
+        Get the products of a batch for a process. The products are removed (get) from the input queues of the resource.
 
         Args:
             resource (resources.Resource): The resource to take the products from.
-            process_request (request_module.Request): The request that is requesting the products.
+            batch (List[request_module.Request]): The requests of the batch.
 
         Returns:
             List[events.Event]: The events that are triggered when the products are taken from the queue.
         """
         events = []
         if isinstance(resource, resources.ProductionResource):
-            batch_size = self.get_batch_size(resource)
             internal_input_queues = [
                 queue
                 for queue in resource.input_queues
                 if not isinstance(queue, store.Store)
             ]
-            for queue in internal_input_queues:
-                while len(events) < batch_size:
-                    event = queue.get(
-                        filter=lambda item: item.product_type == process_request.get_product().product_data.product_type
-                    )
-                    if not event:
+            for process_request in batch:
+                product_data = process_request.get_product().product_data
+                for queue in internal_input_queues:
+                    if product_data in queue.items:
+                        events.append(queue.get(filter=lambda item, product_data=product_data: item is product_data))
                         break
-                    events.append(event)
-            if not events:
+            if len(events) < len(batch):
                 raise ValueError("No products available in the queue to fulfill the batch size requirement")
             return events
         else:
@@ -443,17 +459,22 @@ class BatchController(Controller):
         Yields:
             Generator: The generator yields lists of free states.
         """
-        possible_states = resource.get_processes(process)
+        batch_size = self.get_batch_size(resource)
         while True:
-            free_states = resource.get_free_processes(process)
-            if free_states:
+            free_states = [
+                free_state for free_state in resource.get_free_processes(process) if not free_state.reserved
+            ][:batch_size]
+            products_in_process = len([state for state in resource.production_states if state.reserved])
+            if len(free_states) == batch_size and products_in_process + batch_size <= resource.capacity:
+                for free_state in free_states:
+                    free_state.reserved = True
                 return free_states
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
             yield events.AnyOf(
                 self.env,
                 [
                     state.process
-                    for state in possible_states
+                    for state in resource.production_states
                     if state.process is not None and state.process.is_alive
                 ],
             )
@@ -475,7 +496,6 @@ class BatchController(Controller):
             Generator: The generator yields when a request is made or a process is finished.
         """
         while True:
-            batch_size = self.get_batch_size(self.resource)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Waiting for request or process to finish"})
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
@@ -485,20 +505,22 @@ class BatchController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or (len(self.requests) < batch_size and len(self.requests) > 0):
+            if self.resource.full or not self.get_next_batch():
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
-            self.reserved_requests_count += 1
-            running_process = self.env.process(self.start_process())
+            batch = self.get_next_batch()
+            for request in batch:
+                self.requests.remove(request)
+            running_process = self.env.process(self.start_process(batch))
             self.running_processes.append(running_process)
             if not self.resource.full:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Triggered requested event after process"})
                 self.requested.succeed()
 
-    def start_process(self) -> Generator:
+    def start_process(self, batch: List[request_module.Request]) -> Generator:
         """
-        Start the next process with the following logic:
+        Start the next process for a batch with the following logic:
 
         1. Setup the resource for the process.
         2. Wait until the resource is free for the process.
@@ -512,34 +534,25 @@ class BatchController(Controller):
         batch_size = self.get_batch_size(self.resource)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
         yield self.env.timeout(0)
-        process_request = self.requests.pop(0)
-        self.reserved_requests_count -= 1
+        process_request = batch[0]
         resource = process_request.get_resource()
         process = process_request.get_process()
         product = process_request.get_product()
-        products = []
-        production_states = []
+        products = [request.get_product() for request in batch]
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting setup for process for {product.product_data.ID} with batch size {batch_size}"})
 
         setup_usage = yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
-            product_retrieval_events = self.get_next_product_for_process(resource, process_request)
-            logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve products for batch from queue"})
-            product_data_list = yield events.AllOf(resource.env, product_retrieval_events)
-
-            for product_data in product_data_list.values():
-                simulation_product = product.product_router.product_factory.get_product(product_data.ID)
-                products.append(simulation_product)
-
-            for simulation_product in products:
-                production_states: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            production_states: List[state.State] = yield self.env.process(self.wait_for_free_process(resource, process))
+            self.get_next_product_for_process(resource, batch)
 
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
             yield self.env.process(self.run_process(production_states, products, process))
             resource.end_setup_usage(setup_usage)
-            for state in production_states:
-                state.process = None
+            for production_state in production_states:
+                production_state.process = None
+                production_state.reserved = False
 
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
-- 
2.43.0


From 44d5ade0ac7760cfb70289e7e593b54165a1d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 013/101] fix: shortest link routes must use input and output
 locations whichever way a link is listed

---
 prodsys/simulation/route_finder.py | 43 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index f0295b9..f36666d 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -95,8 +95,7 @@ class RouteFinder:
             List[Tuple[Graphnode, Graphnode, int]]: The edges as a list of tuples (with a start_node, end_node and related costs).
         """
         # TODO: make the imports at top or bottom of file
-        from prodsys.simulation.resources import ProductionResource, TransportResource
-        from prodsys.simulation.store import Store
+        from prodsys.simulation.resources import TransportResource
 
         pathfinder_edges = []
 
@@ -115,19 +114,9 @@ class RouteFinder:
         for link in links:
             link_origin = link[0]
             link_target = link[1]
-            if not isinstance(link_origin, (ProductionResource, Store)) or not link_origin == origin:
-                origin_location = link_origin.get_location()
-            elif empty_transport:
-                origin_location = link_origin.get_input_location()
-            elif not empty_transport:
-                origin_location = link_origin.get_output_location()
-
-            if not isinstance(link_target, (ProductionResource, Store)) or not link_target == target:
-                target_location = link_target.get_location()
-            elif empty_transport:
-                target_location = link_target.get_output_location()
-            elif not empty_transport:
-                target_location = link_target.get_input_location()
+            # links can be used in both directions, so each end of a link can be the origin or the target
+            origin_location = self.get_link_location(link_origin, origin, target, empty_transport)
+            target_location = self.get_link_location(link_target, origin, target, empty_transport)
 
             edge = self.get_graph_edge(
                 link_origin, 
@@ -139,6 +128,30 @@ class RouteFinder:
 
         return pathfinder_edges
 
+    def get_link_location(self, locatable: Locatable, origin: Locatable, target: Locatable, empty_transport: bool) -> List[float]:
+        """
+        Returns the location of an end of a link, considering the input and output locations of the origin and target.
+
+        Args:
+            locatable (Locatable): The locatable at the end of the link.
+            origin (Locatable): The origin of the route.
+            target (Locatable): The target of the route.
+            empty_transport (bool): If the transport is empty.
+
+        Returns:
+            List[float]: The location of the end of the link.
+        """
+        from prodsys.simulation.resources import ProductionResource
+        from prodsys.simulation.store import Store
+
+        if not isinstance(locatable, (ProductionResource, Store)):
+            return locatable.get_location()
+        if locatable == origin:
+            return locatable.get_input_location() if empty_transport else locatable.get_output_location()
+        if locatable == target:
+            return locatable.get_output_location() if empty_transport else locatable.get_input_location()
+        return locatable.get_location()
+
     def get_graph_edge(self, origin: Locatable, target: Locatable, origin_location: list[float], target_location: list[float]) -> Tuple[GraphNode, GraphNode, int]:
         """
         Creates a graph edge for a link.
-- 
2.43.0


From 237c2285a98a4f8cdf4a16ba5238136a6572a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 014/101] fix: a run split into consecutive parts must continue
 its random numbers instead of restarting them

---
 prodsys/simulation/sim.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/sim.py b/prodsys/simulation/sim.py
index 6292ed7..ae79b03 100644
--- a/prodsys/simulation/sim.py
+++ b/prodsys/simulation/sim.py
@@ -62,6 +62,22 @@ class Environment(core.Environment):
         self.seed: int = seed
         self.pbar: Any = None
         self.last_update = 0
+        self._random_states: Any = None
+
+    @contextlib.contextmanager
+    def _own_random_numbers(self):
+        """
+        Context manager that draws random numbers from the streams of this environment: they start with the seed of the environment
+        and are continued in each further run, so that splitting a run into parts does not change the drawn numbers.
+        """
+        with temp_seed(self.seed):
+            if self._random_states is not None:
+                np.random.set_state(self._random_states[0])
+                random.setstate(self._random_states[1])
+            try:
+                yield
+            finally:
+                self._random_states = (np.random.get_state(), random.getstate())
 
     def run(self, time_range: float):
         """
@@ -70,7 +86,7 @@ class Environment(core.Environment):
         Args:
             time_range (int): The time range to run the simulation for in minutes.
         """
-        with temp_seed(self.seed):
+        with self._own_random_numbers():
             if VERBOSE == 1:
                 self.pbar = tqdm(total=time_range)
 
@@ -86,7 +102,8 @@ class Environment(core.Environment):
         Args:
             until (events.Event): The event to run the simulation until.
         """
-        super().run(until=until)
+        with self._own_random_numbers():
+            super().run(until=until)
 
     def request_process_of_resource(self, request: request.Request) -> None:
         """
-- 
2.43.0


From 67589a14ccda9ef76132179d8c409e855d0d2872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:52 +0000
Subject: [PATCH 015/101] fix: the node order of edge-listed process models
 must not depend on string hashing

---
 prodsys/simulation/proces_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index de71e67..1e96be7 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -135,7 +135,7 @@ def get_adjacency_matrix_from_edges(edges: List[List[str]]) -> Dict[str, List[st
     Returns:
         Dict[str, List[str]]: Adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the successor processes.
     """
-    nodes = list(set(flatten(edges)))
+    nodes = list(dict.fromkeys(flatten(edges)))
     adjacency_matrix = {}
     for node in nodes:
         successors = [edge[1] for edge in edges if edge[0] == node]
-- 
2.43.0


From 239e0ab74cc358506128d267c5a8a0a557240f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 016/101] fix: resource states must account for interruptions,
 states that go on and the time before the first event

---
 prodsys/util/post_processing.py | 56 ++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index fd05ab1..86eb748 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -448,9 +448,12 @@ class PostProcessor:
             pd.DataFrame: Data frame with the machine states and the time spent in each state.
         """
         df = self.df_prepared.copy()
+        # Processes that continue after an interruption are logged with a further start and processes without duration only with their end.
+        previous_activity = df.sort_index().groupby(["Resource", "State", "Product"])["Activity"].shift(1)
         positive_condition = (
             (df["State_type"] == "Process State")
             & (df["Activity"] == "start state")
+            & (previous_activity != "end interrupt")
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
@@ -458,6 +461,7 @@ class PostProcessor:
         negative_condition = (
             (df["State_type"] == "Process State")
             & (df["Activity"] == "end state")
+            & (previous_activity == "start state")
             & (df["State Type"] != state.StateTypeEnum.setup)
             & (df["State Type"] != state.StateTypeEnum.breakdown)
             & (df["State Type"] != state.StateTypeEnum.charging)
@@ -469,52 +473,54 @@ class PostProcessor:
 
         df["Used_Capacity"] = df.groupby(by="Resource")["Increment"].cumsum()
 
+        def count_active(condition: pd.Series, start: str, end: str) -> pd.Series:
+            increment = (condition & (df["Activity"] == start)).astype(int) - (condition & (df["Activity"] == end)).astype(int)
+            return increment.groupby(df["Resource"]).cumsum()
+
+        df["Interrupted"] = count_active(df["State_type"] == "Process State", "start interrupt", "end interrupt")
+        df["Broken_down"] = count_active(df["State Type"] == state.StateTypeEnum.breakdown, "start state", "end state")
+        # interruptions of setups and charging are not part of the prepared data frame, the continuation is a further start
+        for column, state_type in (("In_setup", state.StateTypeEnum.setup), ("Charging", state.StateTypeEnum.charging)):
+            activity = df["Activity"].where(df["State Type"] == state_type)
+            df[column] = (activity.groupby(df["Resource"]).ffill() == "start state").astype(int)
+
         df_resource_types = df[["Resource", "State Type"]].drop_duplicates().copy()
         resource_types_dict = pd.Series(df_resource_types["State Type"].values, index=df_resource_types["Resource"].values).to_dict()
         for resource in df["Resource"].unique():
             if resource_types_dict[resource] in {state.StateTypeEnum.source, state.StateTypeEnum.sink}:
                 continue
-            example_row = (
-                df.loc[
-                    (df["Resource"] == resource)
-                    & (
-                        ((df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0))
-                        | (df["State_sorting_Index"] == 3)
-                    )
-                ]
-                .copy()
-                .head(1)
-            )
+            # every resource is in standby until its first event
+            example_row = df.loc[df["Resource"] == resource].copy().head(1)
             example_row["Time"] = 0.0
+            example_row["State_sorting_Index"] = 3
+            example_row[["Used_Capacity", "Interrupted", "Broken_down", "In_setup", "Charging"]] = 0
             df = pd.concat([example_row, df]).reset_index(drop=True)
 
         df["next_Time"] = df.groupby("Resource")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"].max())
         df["time_increment"] = df["next_Time"] - df["Time"]
 
-        STANDBY_CONDITION = (
-            (df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0)
-        ) | (df["State_sorting_Index"] == 3)
+        WAITING_CONDITION = (df["State_sorting_Index"] == 5) | (
+            df["State_sorting_Index"] == 3
+        )
+        STANDBY_CONDITION = WAITING_CONDITION & (df["Used_Capacity"] == 0)
         PRODUCTIVE_CONDITION = (
             (df["State_sorting_Index"] == 6)
             | (df["State_sorting_Index"] == 4)
+            | (df["State_sorting_Index"] == 7)
+            | ((df["State_sorting_Index"] == 3) & (df["Used_Capacity"] > 0))
             | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
         )
-        DOWN_CONDITION = ((df["State_sorting_Index"] == 7) | (
-            df["State_sorting_Index"] == 8
-        )) & (df["State Type"] == state.StateTypeEnum.breakdown)
-        SETUP_CONDITION = ((df["State_sorting_Index"] == 8)) & (
-            df["State Type"] == state.StateTypeEnum.setup
-        )
-        CHARGING_CONDITION = ((df["State_sorting_Index"] == 8)) & (
-            df["State Type"] == state.StateTypeEnum.charging
+        INTERRUPTED_CONDITION = (df["Used_Capacity"] > 0) & (
+            df["Interrupted"] >= df["Used_Capacity"]
         )
 
         df.loc[STANDBY_CONDITION, "Time_type"] = "SB"
         df.loc[PRODUCTIVE_CONDITION, "Time_type"] = "PR"
-        df.loc[DOWN_CONDITION, "Time_type"] = "UD"
-        df.loc[SETUP_CONDITION, "Time_type"] = "ST"
-        df.loc[CHARGING_CONDITION, "Time_type"] = "CR"
+        df.loc[INTERRUPTED_CONDITION, "Time_type"] = "UD"
+        df.loc[df["In_setup"] > 0, "Time_type"] = "ST"
+        df.loc[df["Charging"] > 0, "Time_type"] = "CR"
+        df.loc[df["Broken_down"] > 0, "Time_type"] = "UD"
 
         return df
 
-- 
2.43.0


From 437f3ae0dab5869377f104c92af55dc1b658146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 017/101] fix: the warm-up cut-off must not drop the part of a
 resource state that lies after it

---
 prodsys/util/post_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 86eb748..433432e 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -803,7 +803,8 @@ class PostProcessor:
         df = df.loc[df["Time_type"] != "na"]
 
         if self.warm_up_cutoff:
-            df = df.loc[df["Time"] >= self.warm_up_cutoff_time]
+            df = df.loc[df["next_Time"] >= self.warm_up_cutoff_time]
+            df["time_increment"] = df["next_Time"] - df["Time"].clip(lower=self.warm_up_cutoff_time)
 
         df_time_per_state = df.groupby(["Resource", "Time_type"])[
             "time_increment"
-- 
2.43.0


From c6c9049d39746202fd6d839587c7cbf34890c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 018/101] fix: results must not be those of an earlier part of
 the run or of an earlier run

---
 prodsys/util/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/util/runner.py b/prodsys/util/runner.py
index 796ad26..32b52f0 100644
--- a/prodsys/util/runner.py
+++ b/prodsys/util/runner.py
@@ -126,6 +126,7 @@ class Runner:
         Initializes the simulation by creating the factories and all simulation objects. Needs to be done before running the simulation.
         """
         self.adapter.validate_configuration()
+        self.post_processor = None
         with temp_seed(self.adapter.seed):
 
             self.time_model_factory = time_model_factory.TimeModelFactory()
@@ -233,6 +234,7 @@ class Runner:
 
         t_0 = time.perf_counter()
 
+        self.post_processor = None
         self.env.run(time_range)
 
         t_1 = time.perf_counter()
-- 
2.43.0


From 67aa58ec98be7c318564c0e6e494491b035a9318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 019/101] fix: machines and sources with several internal
 queues must neither lose slots nor strand or duplicate products

---
 prodsys/simulation/control.py   |  7 ++++---
 prodsys/simulation/resources.py | 10 ++++------
 prodsys/simulation/source.py    |  2 +-
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 63ab0d4..1ba4c9e 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -292,7 +292,7 @@ class ProductionController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, [product])
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues() # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues([put_event.resource for put_event in product_put_events]) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for next_product in [product]:
                 if not resource.got_free.triggered:
@@ -557,7 +557,7 @@ class BatchController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues(batch_size) # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues([put_event.resource for put_event in product_put_events]) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for product in products:
                 for next_product in [product]:
@@ -649,7 +649,8 @@ class TransportController(Controller):
         if (isinstance(resource, resources.ProductionResource) or isinstance(resource, source.Source)):
             internal_queues = [queue for queue in resource.output_queues if not isinstance(queue, store.Store)]
             for queue in internal_queues:
-                events.append(queue.get(filter=lambda x: x is product.product_data))
+                if any(item is product.product_data for item in queue.items):
+                    events.append(queue.get(filter=lambda x: x is product.product_data))
             if not events:
                 raise ValueError(f"No product in internal queue {resource.data.ID}")
         elif isinstance(resource, store.Store):
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index dcf2ab5..42a4fc1 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -518,14 +518,12 @@ class ProductionResource(Resource):
 
     def reserve_internal_input_queues(self):
         internal_queues = [q for q in self.input_queues if not isinstance(q, store.Store)]
-        for internal_queue in internal_queues:
+        for internal_queue in internal_queues[:1]: # transports deliver to the first internal queue
             internal_queue.reserve()
 
-    def adjust_pending_put_of_output_queues(self, batch_size: int = 1):
-        internal_queues = [q for q in self.output_queues if not isinstance(q, store.Store)]
-        for output_queue in internal_queues:
-            for i in range(batch_size):
-                output_queue.reserve()
+    def adjust_pending_put_of_output_queues(self, used_queues: List[store.Queue]):
+        for output_queue in used_queues:
+            output_queue.reserve()
 
 class TransportResource(Resource):
     """
diff --git a/prodsys/simulation/source.py b/prodsys/simulation/source.py
index 8992630..3ca8a4b 100644
--- a/prodsys/simulation/source.py
+++ b/prodsys/simulation/source.py
@@ -90,7 +90,7 @@ class Source(BaseModel):
             )
             logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "product": product.product_data.ID, "event": f"Created product"})
             available_events_events = []
-            for queue in self.output_queues:
+            for queue in self.output_queues[:1]: # a product rests in one queue only
                 queue.reserve()
                 available_events_events.append(queue.put(product.product_data))
             yield events.AllOf(self.env, available_events_events)
-- 
2.43.0


From 1ce61db55c7756045731e185a783114f7ae0735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 020/101] fix: reading a configuration file must restore
 scenario, validity and cost and must not keep parts of an earlier
 configuration

---
 prodsys/adapters/json_adapter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/prodsys/adapters/json_adapter.py b/prodsys/adapters/json_adapter.py
index 3a40af2..d4e3d7a 100644
--- a/prodsys/adapters/json_adapter.py
+++ b/prodsys/adapters/json_adapter.py
@@ -19,6 +19,7 @@ from prodsys.models import (
     time_model_data,
     state_data,
     processes_data,
+    scenario_data,
     sink_data,
     source_data,
 )
@@ -88,8 +89,7 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
             scenario_file_path (Optional[str], optional): File path for the scenario data. Defaults to None.
         """
         data = load_json(file_path=file_path)
-        if "ID" in data:
-            self.ID = data["ID"]
+        self.ID = data.get("ID", "")
         if "seed" in data:
             self.seed = data["seed"]
         else:
@@ -107,11 +107,15 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         self.resource_data = self.create_objects_from_configuration_data(data["resource_data"], resource_data.RESOURCE_DATA_UNION)
         self.product_data = self.create_objects_from_configuration_data(data["product_data"], product_data.ProductData)
         self.sink_data = self.create_objects_from_configuration_data(data["sink_data"], sink_data.SinkData)
-        if "node_data" in data:
-            self.node_data = self.create_objects_from_configuration_data(data["node_data"], node_data.NodeData)
-        if "auxiliary_data" in data:
-            self.auxiliary_data = self.create_objects_from_configuration_data(data["auxiliary_data"], auxiliary_data.AuxiliaryData)
+        self.node_data = self.create_objects_from_configuration_data(data.get("node_data") or [], node_data.NodeData)
+        self.auxiliary_data = self.create_objects_from_configuration_data(data.get("auxiliary_data") or [], auxiliary_data.AuxiliaryData)
         self.source_data = self.create_objects_from_configuration_data(data["source_data"], source_data.SourceData)
+        if data.get("scenario_data") is not None:
+            self.scenario_data = scenario_data.ScenarioData.model_validate(data["scenario_data"])
+        else:
+            self.scenario_data = None
+        self.valid_configuration = data.get("valid_configuration", True)
+        self.reconfiguration_cost = data.get("reconfiguration_cost", 0)
         if scenario_file_path:
             self.read_scenario(scenario_file_path)
     
-- 
2.43.0


From d7488d06c36eaa081d10efc3388fda4cc5113206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 021/101] fix: writing a configuration must not lose the
 locations of its stores

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index a5ca96f..7bb7624 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -293,7 +293,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     time_model_data: List[time_model_data_module.TIME_MODEL_DATA] = []
     state_data: List[state_data_module.STATE_DATA_UNION] = []
     process_data: List[processes_data_module.PROCESS_DATA_UNION] = []
-    queue_data: List[queue_data_module.QueueData] = []
+    queue_data: List[queue_data_module.QUEUE_DATA_UNION] = []
     node_data: List[node_data_module.NodeData] = []
     resource_data: List[resource_data_module.RESOURCE_DATA_UNION] = []
     product_data: List[product_data_module.ProductData] = []
-- 
2.43.0


From 13d0ffd34af66bf2cd03b2438894ceb4e473c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 022/101] fix: rework processes can be used in resources,
 setups and process breakdowns of the express interface

---
 prodsys/express/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prodsys/express/process.py b/prodsys/express/process.py
index fdefe4c..fa0d2a6 100644
--- a/prodsys/express/process.py
+++ b/prodsys/express/process.py
@@ -366,6 +366,7 @@ class RequiredCapabilityProcess(core.ExpressObject):
 PROCESS_UNION = Union[
     ProductionProcess,
     CapabilityProcess,
+    ReworkProcess,
     TransportProcess,
     RequiredCapabilityProcess,
     LinkTransportProcess,
-- 
2.43.0


From fe2bd8d742c30746adb151adc418fdbfb1f7be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 023/101] fix: describing systems with breakdown or charging
 states in the express interface must not fail

---
 prodsys/express/production_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index 39084ea..d6400d1 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -109,7 +109,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_models = (
             [process_instance.time_model for process_instance in processes if not isinstance(process_instance, process.RequiredCapabilityProcess)]
-            + [state.time_model for state in states]
+            + [s.time_model for s in states]
             + [source.time_model for source in self.sources]
         )
         time_models += [
@@ -138,7 +138,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_model_data = [time_model.to_model() for time_model in time_models]
         process_data = [process.to_model() for process in processes]
-        state_data = [state.to_model() for state in states]
+        state_data = [s.to_model() for s in states]
         nodes_data = [node.to_model() for node in nodes]
         product_data = [product.to_model() for product in products]
         resource_data = [resource.to_model() for resource in self.resources]
-- 
2.43.0


From 8341c5c5a979d65f4ffc6d151c162744dae73960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 024/101] fix: a Manhattan distance time model read from a file
 must stay one

---
 prodsys/models/time_model_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index b54f986..d0a8335 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -341,5 +341,5 @@ class DistanceTimeModelData(CoreAsset):
 
 
 TIME_MODEL_DATA = Union[
-    FunctionTimeModelData, SampleTimeModelData, ScheduledTimeModelData, DistanceTimeModelData, SequentialTimeModelData, ManhattanDistanceTimeModelData, 
+    FunctionTimeModelData, SampleTimeModelData, ScheduledTimeModelData, ManhattanDistanceTimeModelData, DistanceTimeModelData, SequentialTimeModelData, 
 ]
-- 
2.43.0


From 5cadb189f840ab8190b069df279190d9d04dfeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 025/101] fix: steps of a process graph that are named as
 successors only must wait for their predecessors

---
 prodsys/factories/product_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/factories/product_factory.py b/prodsys/factories/product_factory.py
index 66bee8b..b50de24 100644
--- a/prodsys/factories/product_factory.py
+++ b/prodsys/factories/product_factory.py
@@ -81,6 +81,10 @@ class ProductFactory:
         self, id_adjacency_matrix: Dict[str, List[str]]
     ) -> proces_models.PrecedenceGraphProcessModel:
         precedence_graph = proces_models.PrecedenceGraphProcessModel()
+        id_adjacency_matrix = dict(id_adjacency_matrix)
+        for successor_ids in list(id_adjacency_matrix.values()):
+            for successor_id in successor_ids:
+                id_adjacency_matrix.setdefault(successor_id, [])
         id_predecessor_adjacency_matrix = (
             proces_models.get_predecessors_adjacency_matrix(id_adjacency_matrix)
         )
-- 
2.43.0


From b7cc46e19580b4c338f603a6563913059df55d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 026/101] fix: demands for one of several capabilities must be
 met by resources offering one of them

---
 prodsys/simulation/process.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/process.py b/prodsys/simulation/process.py
index d998689..3dd4620 100644
--- a/prodsys/simulation/process.py
+++ b/prodsys/simulation/process.py
@@ -92,9 +92,15 @@ class CapabilityProcess(Process):
             return False
         if isinstance(requested_process, CompoundProcess):
             return self.process_data.capability in [
-                p.process_data.capability
+                p.capability
                 for p in requested_process.contained_processes_data
-                if isinstance(p, CapabilityProcess)
+                if isinstance(
+                    p,
+                    (
+                        processes_data.CapabilityProcessData,
+                        processes_data.RequiredCapabilityProcessData,
+                    ),
+                )
             ]
         return requested_process.process_data.capability == self.process_data.capability
 
-- 
2.43.0


From ac9613da6fd86659f6e0ebf8506cfbdd9ef7fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 027/101] fix: configurations with missing processes,
 auxiliaries or too small auxiliary storages must be rejected before the
 simulation

---
 prodsys/adapters/adapter.py | 51 ++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 7bb7624..8df991e 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from hashlib import md5
 from typing import List, Any, Set, Optional, Tuple, Union
-from pydantic import BaseModel, ConfigDict, field_validator, ValidationError, ValidationInfo
+from pydantic import BaseModel, ConfigDict, field_validator, ValidationInfo
 
 import logging
 logger = logging.getLogger(__name__)
@@ -774,7 +774,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for product in products:
             all_processes = get_set_of_IDs(values["process_data"])
             if product.transport_process not in all_processes:
-                raise ValidationError(
+                raise ValueError(
                     f"The transport process {product.transport_process} of product {product.ID} is not a valid process of {all_processes}."
                 )
             required_processes = set()
@@ -787,7 +787,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
             ):
                 required_processes = set(util.flatten(product.processes))
             elif isinstance(product.processes, dict):
-                required_processes = set(product.processes.keys())
+                required_processes = set(product.processes.keys()) | set(util.flatten(product.processes.values()))
             if required_processes - all_processes != set():
                 raise ValueError(
                     f"The processes {required_processes - all_processes} of product {product.ID} are not a valid processes of {all_processes}."
@@ -900,10 +900,12 @@ class ProductionSystemAdapter(ABC, BaseModel):
 
         Raises:
             ValueError: If multiple objects are positioned at the same location.
+            ValueError: If states, rework processes, products or auxiliaries refer to something that does not exist.
             ValueError: If not all required process are available.
             ValueError: If not all links are available for LinkTransportProcesses.
         """
         assert_no_redudant_locations(self)
+        assert_references_available(self)
         assert_required_processes_in_resources_available(self)
         assert_all_links_available(self)
 
@@ -957,6 +959,47 @@ def assert_no_redudant_locations(adapter: ProductionSystemAdapter):
         if positions.count(location) > 1:
             raise ValueError(f"Multiple objects are positioned at the same location: {location}")
 
+def assert_references_available(adapter: ProductionSystemAdapter):
+    """
+    Asserts that states, rework processes, products and auxiliaries only refer to existing elements and that the storages of auxiliaries can hold them.
+
+    Args:
+        adapter (ProductionSystemAdapter): Production system configuration
+
+    Raises:
+        ValueError: If an element refers to something that does not exist or if a storage is too small for its auxiliaries.
+    """
+    processes = get_set_of_IDs(adapter.process_data)
+    auxiliaries = get_set_of_IDs(adapter.auxiliary_data or [])
+    storage_capacities = {queue.ID: queue.capacity for queue in adapter.queue_data}
+    references = []
+    for state in adapter.state_data:
+        if isinstance(state, state_data_module.SetupStateData):
+            references += [(state, state.origin_setup, processes), (state, state.target_setup, processes)]
+        elif isinstance(state, state_data_module.ProcessBreakDownStateData):
+            references.append((state, state.process_id, processes))
+    for process in adapter.process_data:
+        if isinstance(process, processes_data_module.ReworkProcessData):
+            references += [(process, process_id, processes) for process_id in process.reworked_process_ids]
+    for product in adapter.product_data:
+        references += [(product, auxiliary_id, auxiliaries) for auxiliary_id in product.auxiliaries or []]
+    for auxiliary in adapter.auxiliary_data or []:
+        process_ids = [auxiliary.transport_process] + auxiliary.relevant_processes + auxiliary.relevant_transport_processes
+        references += [(auxiliary, process_id, processes) for process_id in process_ids]
+        references += [(auxiliary, storage_id, set(storage_capacities)) for storage_id in auxiliary.storages]
+    for element, reference, valid_references in references:
+        if reference not in valid_references:
+            raise ValueError(
+                f"{reference}, which {element.ID} refers to, is not valid, it has to be one of {valid_references}."
+            )
+    stored_quantities = {storage_id: 0 for storage_id in storage_capacities}
+    for auxiliary in adapter.auxiliary_data or []:
+        for storage_id, quantity in zip(auxiliary.storages, auxiliary.quantity_in_storages):
+            stored_quantities[storage_id] += quantity
+            if storage_capacities[storage_id] and stored_quantities[storage_id] > storage_capacities[storage_id]:
+                raise ValueError(f"The storage {storage_id} is too small for the auxiliaries that start in it.")
+
+
 def assert_all_links_available(adapter: ProductionSystemAdapter):
     """
     Asserts that all links are valid, so that the start and target of the link are valid locations.
@@ -1220,7 +1263,7 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     """
     available = set(list(util.flatten([resource.process_ids for resource in configuration.resource_data])))
     required = util.flatten([product.processes for product in configuration.product_data if not isinstance(product.processes, dict)])
-    required_dict_processes = util.flatten([list(product.processes.keys()) for product in configuration.product_data if isinstance(product.processes, dict)])
+    required_dict_processes = util.flatten([[list(product.processes.keys()), list(product.processes.values())] for product in configuration.product_data if isinstance(product.processes, dict)])
     required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data])
 
     required_production_processes = get_production_processes_from_ids(configuration, required)
-- 
2.43.0


From c7ea371440c7dd25c6b5d31fe44fe6c3a1365aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 028/101] fix: validation must accept compound demands with an
 available member and reject those without

---
 prodsys/adapters/adapter.py | 45 +++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 8df991e..6db11d2 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1151,12 +1151,10 @@ def get_contained_production_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_production_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_production_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 def get_contained_capability_processes_from_compound_processes(
@@ -1165,12 +1163,10 @@ def get_contained_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_capability_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 def get_contained_transport_processes_from_compound_processes(
@@ -1179,12 +1175,10 @@ def get_contained_transport_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_transport_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_transport_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 
@@ -1194,12 +1188,10 @@ def get_contained_required_capability_processes_from_compound_processes(
     processes = []
     for compound_process in compound_processes:
         for process_id in compound_process.process_ids:
-            processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
-            if len(processes) > 1:
+            contained_processes = get_required_capability_processes_from_ids(adapter_object, [process_id])
+            if len(contained_processes) > 1:
                 raise ValueError(f"Multiple processes with ID {process_id} found.")
-            if processes:
-                process = processes[0]
-                processes.append(process)
+            processes += contained_processes
     return processes
 
 
@@ -1286,14 +1278,19 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     required_compound_processes = get_compound_processes_from_ids(configuration, required)
     available_compound_processes = get_compound_processes_from_ids(configuration, available)
 
-    required_production_processes += get_contained_production_processes_from_compound_processes(configuration, required_compound_processes)
-    required_transport_processes += get_contained_transport_processes_from_compound_processes(configuration, required_compound_processes)
-    required_capability_processes += get_contained_capability_processes_from_compound_processes(configuration, required_compound_processes)
-    required_capability_processes += get_contained_required_capability_processes_from_compound_processes(configuration, required_compound_processes)
     available_production_processes += get_contained_production_processes_from_compound_processes(configuration, available_compound_processes)
     available_transport_processes += get_contained_transport_processes_from_compound_processes(configuration, available_compound_processes)
     available_capability_processes += get_contained_capability_processes_from_compound_processes(configuration, available_compound_processes)
 
+    available_ids = get_set_of_IDs(available_production_processes + available_transport_processes)
+    available_capabilities = set([process.capability for process in available_capability_processes])
+    for compound_process in required_compound_processes:
+        contained_capability_processes = get_contained_capability_processes_from_compound_processes(configuration, [compound_process])
+        contained_capability_processes += get_contained_required_capability_processes_from_compound_processes(configuration, [compound_process])
+        contained_capabilities = set([process.capability for process in contained_capability_processes])
+        if not available_ids & set(compound_process.process_ids) and not available_capabilities & contained_capabilities:
+            raise ValueError(f"None of the processes {compound_process.process_ids} of required compound process {compound_process.ID} is available.")
+
     assert_production_processes_available(available_production_processes, required_production_processes)
     assert_transport_processes_available(available_transport_processes, required_transport_processes)
     assert_capability_processes_available(available_capability_processes, required_capability_processes)
-- 
2.43.0


From 5059fc0462f83264ff8c92bf8493b23301cea26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 029/101] fix: the hash of a resource must consider its control
 policy

---
 prodsys/models/resource_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 22c35b6..d0bdc8a 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -143,7 +143,9 @@ class ResourceData(CoreAsset, Locatable):
                     self.controller, 
                     *sorted(process_hashes), 
                     *map(str, self.process_capacities), 
-                    *sorted(state_hashes)
+                    *sorted(state_hashes),
+                    # the default policy is left out, so that hashes of configurations with it stay stable
+                    *([self.control_policy] if self.control_policy != "FIFO" else []),
                 ]
             )
         ).encode("utf-8")).hexdigest()
-- 
2.43.0


From 0c22fedb42600d5a483aab27991d401c0b69447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 030/101] fix: the hash of a resource must keep process
 capacities with their processes

---
 prodsys/models/resource_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index d0bdc8a..924d7a1 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -135,14 +135,16 @@ class ResourceData(CoreAsset, Locatable):
             else:
                 raise ValueError(f"Process with ID {process_id} not found for resource {self.ID}.")
 
+        capabilities = sorted(zip(process_hashes, self.process_capacities))
+
         return md5((
             "".join(
                 [
                     base_class_hash,
                     str(self.capacity), 
                     self.controller, 
-                    *sorted(process_hashes), 
-                    *map(str, self.process_capacities), 
+                    *[process_hash for process_hash, _ in capabilities], 
+                    *[str(capacity) for _, capacity in capabilities], 
                     *sorted(state_hashes),
                     # the default policy is left out, so that hashes of configurations with it stay stable
                     *([self.control_policy] if self.control_policy != "FIFO" else []),
-- 
2.43.0


From f76570d93b5c1f1caa31ad0bbbb47edfe23af62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 031/101] fix: the hash of a transport process must distinguish
 loading and unloading times

---
 prodsys/models/processes_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 17a4637..c46d13b 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -269,6 +269,8 @@ class TransportProcessData(ProcessData):
                 if time_model.ID == self.unloading_time_model_id:
                     unloading_time_model_hash = time_model.hash()
                     break
+        if unloading_time_model_hash and not loading_time_model_hash:
+            loading_time_model_hash = "no loading"
         input_data = (
             base_class_hash + loading_time_model_hash + unloading_time_model_hash
         )
-- 
2.43.0


From 9409df064cb93c95c8f5979e11fde074a86a293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 032/101] fix: the hash of a link transport process must not
 depend on the names of the linked places

---
 prodsys/models/processes_data.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index c46d13b..6f2947c 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -476,7 +476,20 @@ class LinkTransportProcessData(TransportProcessData):
         """
         base_class_hash = super().hash(adapter)
 
-        sorted_links = sorted(["-".join(link) for link in self.links])
+        places = {
+            place.ID: f"{type(place).__name__}{place.location}{getattr(place, 'input_location', None)}{getattr(place, 'output_location', None)}"
+            for place in [
+                *adapter.node_data,
+                *adapter.resource_data,
+                *adapter.source_data,
+                *adapter.sink_data,
+                *adapter.queue_data,
+            ]
+            if hasattr(place, "location")
+        }
+        sorted_links = sorted(
+            ["-".join(places.get(place_id, place_id) for place_id in link) for link in self.links]
+        )
 
         input_data = base_class_hash + "".join(sorted_links) + self.capability
 
-- 
2.43.0


From 5aa16550ce565c41e0cc7ef0437136b1e58ef7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 033/101] fix: the hash of an auxiliary must not depend on the
 order in which queues and processes are listed

---
 prodsys/models/auxiliary_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/models/auxiliary_data.py b/prodsys/models/auxiliary_data.py
index aebe15e..19580af 100644
--- a/prodsys/models/auxiliary_data.py
+++ b/prodsys/models/auxiliary_data.py
@@ -55,9 +55,11 @@ class AuxiliaryData(CoreAsset):
         relevant_processes_hashes = []
         relevant_transport_processes_hashes = []
 
-        for queue in adapter.queue_data:
-            if queue.ID in self.storages:
-                storages_hashes.append(queue.hash())
+        for storage_id in self.storages:
+            for queue in adapter.queue_data:
+                if queue.ID == storage_id:
+                    storages_hashes.append(queue.hash())
+                    break
         for process in adapter.process_data:
             if process.ID in self.relevant_processes:
                 relevant_processes_hashes.append(process.hash(adapter))
@@ -66,4 +68,4 @@ class AuxiliaryData(CoreAsset):
             if process.ID == self.transport_process:
                 transport_processes_hash = process.hash(adapter)
         
-        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *relevant_processes_hashes, *relevant_transport_processes_hashes])]).encode("utf-8")).hexdigest()
\ No newline at end of file
+        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *sorted(relevant_processes_hashes), *sorted(relevant_transport_processes_hashes)])]).encode("utf-8")).hexdigest()
\ No newline at end of file
-- 
2.43.0


From 6aca87f62837eaab61714026cdd4b0c907407dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 034/101] fix: a partial crossover of machines must not lose or
 duplicate machines

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7479a20..86443bc 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -42,8 +42,10 @@ def crossover(ind1, ind2):
         adapter2.resource_data = transport_resources_2
         if crossover_type == "partial_machine":
             min_length = min(len(machines_1), len(machines_2))
-            machines_1 = machines_1[:min_length] + machines_2[min_length:]
-            machines_2 = machines_2[:min_length] + machines_1[min_length:]
+            machines_1, machines_2 = (
+                machines_1[:min_length] + machines_2[min_length:],
+                machines_2[:min_length] + machines_1[min_length:],
+            )
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 0c7a20ff6043b7373a8538d69a3aae27f96c8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 035/101] fix: moving and removing process modules must handle
 partly and doubly offered modules

---
 prodsys/optimization/adapter_manipulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 86443bc..3292178 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -239,7 +239,8 @@ def remove_process_module(adapter_object: adapters.ProductionSystemAdapter) -> b
     process_module_to_delete = random.choice(process_modules)
 
     for process in process_module_to_delete:
-        machine.process_ids.remove(process)
+        if process in machine.process_ids:
+            machine.process_ids.remove(process)
     add_setup_states_to_machine(adapter_object, machine.ID)
     return True
 
@@ -269,8 +270,11 @@ def move_process_module(adapter_object: adapters.ProductionSystemAdapter) -> boo
         return False
     process_module_to_move = random.choice(grouped_process_module_IDs)
     for process_module in process_module_to_move:
+        if process_module not in from_machine.process_ids:
+            continue
         from_machine.process_ids.remove(process_module)
-        to_machine.process_ids.append(process_module)
+        if process_module not in to_machine.process_ids:
+            to_machine.process_ids.append(process_module)
     add_setup_states_to_machine(adapter_object, from_machine.ID)
     add_setup_states_to_machine(adapter_object, to_machine.ID)
     return True
-- 
2.43.0


From e8109c137f618cf09d7f265cc9c730c56dd53b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 036/101] fix: changing auxiliaries must be refused when no
 product requires auxiliaries

---
 prodsys/optimization/adapter_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 3292178..7119482 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -339,6 +339,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was added, False otherwise (if adding is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     queue = [
@@ -363,6 +365,8 @@ def remove_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was removed, False otherwise (if removing is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     if auxiliary.quantity_in_storages[storage_index] == 0:
-- 
2.43.0


From a6773387e32454cbf12ebd41731e068c027664ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 037/101] fix: input and output of a moved machine must not
 drift from its position

---
 prodsys/optimization/adapter_manipulation.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7119482..3a225f5 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -288,18 +288,15 @@ def update_production_resource_location(resource: resource_data.ProductionResour
         resource (resource_data.ProductionResourceData): Machine to update.
         location (List[float]): New location of the machine.
     """
-    position_delta = [
-        new_location[0] - resource.location[0],
-        new_location[1] - resource.location[1],
-    ]
+    old_location = resource.location
     resource.location = new_location
     resource.input_location = [
-        resource.input_location[0] + position_delta[0],
-        resource.input_location[1] + position_delta[1],
+        new_location[0] + (resource.input_location[0] - old_location[0]),
+        new_location[1] + (resource.input_location[1] - old_location[1]),
     ]
     resource.output_location = [
-        resource.output_location[0] + position_delta[0],
-        resource.output_location[1] + position_delta[1],
+        new_location[0] + (resource.output_location[0] - old_location[0]),
+        new_location[1] + (resource.output_location[1] - old_location[1]),
     ]
 
 
-- 
2.43.0


From 37e9d6c8b9541fe73b16f446a69b422848c30e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 038/101] fix: cleaning out breakdown states must keep setup
 and charging states

---
 prodsys/optimization/util.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 2d6a042..c320d4e 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -342,7 +342,20 @@ def create_default_breakdown_states(adapter_object: adapters.ProductionSystemAda
 def clean_out_breakdown_states_of_resources(
     adapter_object: adapters.ProductionSystemAdapter,
 ):
+    breakdown_state_ids = set(
+        state.ID
+        for state in adapter_object.state_data
+        if isinstance(
+            state,
+            (state_data.BreakDownStateData, state_data.ProcessBreakDownStateData),
+        )
+    )
     for resource in adapter_object.resource_data:
+        other_state_ids = [
+            state_id
+            for state_id in resource.state_ids
+            if state_id not in breakdown_state_ids
+        ]
         if isinstance(resource, resource_data.ProductionResourceData) and any(
             True
             for state in adapter_object.state_data
@@ -352,7 +365,7 @@ def clean_out_breakdown_states_of_resources(
         ):
             resource.state_ids = get_breakdown_state_ids_of_machine_with_processes(
                 resource.process_ids, adapter_object
-            )
+            ) + other_state_ids
         elif isinstance(resource, resource_data.TransportResourceData) and any(
             True
             for state in adapter_object.state_data
@@ -361,7 +374,7 @@ def clean_out_breakdown_states_of_resources(
         ):
             resource.state_ids = [
                 BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
-            ]
+            ] + other_state_ids
 
 
 def get_weights(
-- 
2.43.0


From b5a1b58dcfb7d5278669bdc8dd6db8c43ea38a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 039/101] fix: products without auxiliaries must be accepted by
 the optimization

---
 prodsys/optimization/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index c320d4e..5d9482d 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -61,7 +61,7 @@ def get_required_auxiliaries(
     """
     auxiliary_ids = set()
     for product in adapter_object.product_data:
-        auxiliary_ids.update(product.auxiliaries)
+        auxiliary_ids.update(product.auxiliaries or [])
     if not auxiliary_ids:
         return []
     return [
-- 
2.43.0


From ad255b3fd374c3eedc9228f94c886edbe7dfeb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 040/101] fix: only rework processes that a resource offers may
 be chosen for rework

---
 prodsys/simulation/router.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index d2475eb..d891b1b 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -740,7 +740,14 @@ class Router:
             list[process.ReworkProcess]: A list of possible rework processes for the product.
         """
         possible_rework_processes = []
+        offered_process_ids = set(
+            offered_process.process_data.ID
+            for resource in self.resource_factory.resources
+            for offered_process in resource.processes
+        )
         for potential_rework_process in self.resource_factory.process_factory.processes:
+            if potential_rework_process.process_data.ID not in offered_process_ids:
+                continue
             if isinstance(potential_rework_process, ReworkProcess):
                 rework_request = request.ReworkRequest(
                     failed_process=failed_process,
-- 
2.43.0


From 2e01f152e542c153181bb83b251a96f86b6c70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 041/101] fix: processes that can fail must be rejected when no
 resource offers a rework process for them

---
 prodsys/adapters/adapter.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 6db11d2..0bf50d2 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1243,6 +1243,22 @@ def assert_capability_processes_available(available: List[processes_data_module.
     if required - available != set():
         raise ValueError(f"Required capability processes {required - available} are not available.")
 
+def assert_rework_processes_available(
+    available: List[processes_data_module.PROCESS_DATA_UNION],
+    required_ids: Set[str],
+    required_capabilities: Set[str],
+):
+    reworked_process_ids = set()
+    for process in available:
+        if isinstance(process, processes_data_module.ReworkProcessData):
+            reworked_process_ids.update(process.reworked_process_ids)
+    for process in available:
+        if not getattr(process, "failure_rate", None) or process.ID in reworked_process_ids:
+            continue
+        if process.ID in required_ids or getattr(process, "capability", None) in required_capabilities:
+            raise ValueError(f"No rework process is available for process {process.ID} which has a failure rate of {process.failure_rate}.")
+
+
 def assert_required_processes_in_resources_available(configuration: ProductionSystemAdapter):
     """
     Asserts that all required processes are available in the resources that are requested by the products in the configuration.
@@ -1294,3 +1310,11 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     assert_production_processes_available(available_production_processes, required_production_processes)
     assert_transport_processes_available(available_transport_processes, required_transport_processes)
     assert_capability_processes_available(available_capability_processes, required_capability_processes)
+
+    executed_ids = set(required)
+    executed_ids.update(process_id for process in required_compound_processes for process_id in process.process_ids)
+    executed_capabilities = set(
+        process.capability
+        for process in get_capability_processes_from_ids(configuration, executed_ids) + get_required_capability_processes_from_ids(configuration, executed_ids)
+    )
+    assert_rework_processes_available(available_production_processes + available_capability_processes, executed_ids, executed_capabilities)
-- 
2.43.0


From 204761fe8a9bf18e3a7548b02f3edc8613c9f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 042/101] fix: machines that a crossover brings together must
 not share their name and buffers

---
 prodsys/optimization/adapter_manipulation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 3a225f5..a8f887f 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -46,6 +46,8 @@ def crossover(ind1, ind2):
                 machines_1[:min_length] + machines_2[min_length:],
                 machines_2[:min_length] + machines_1[min_length:],
             )
+            rename_duplicate_machines(machines_1)
+            rename_duplicate_machines(machines_2)
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
@@ -63,6 +65,14 @@ def crossover(ind1, ind2):
     return ind1, ind2
 
 
+def rename_duplicate_machines(machines: List[resource_data.ProductionResourceData]):
+    machine_ids = set()
+    for machine in machines:
+        if machine.ID in machine_ids:
+            machine.ID = str(uuid1())
+        machine_ids.add(machine.ID)
+
+
 def add_machine(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     """
     Function that adds a random machine to the production system.
-- 
2.43.0


From a5646d7001c8600d731edade9fd667d5f8cd9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 043/101] fix: an added machine must not offer a process twice

---
 prodsys/optimization/adapter_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index a8f887f..665aa7e 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -95,7 +95,7 @@ def add_machine(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     if num_process_modules > len(possible_processes):
         num_process_modules = len(possible_processes)
     process_module_list = random.sample(possible_processes, num_process_modules)
-    process_module_list = list(flatten(process_module_list))
+    process_module_list = list(dict.fromkeys(flatten(process_module_list)))
 
     control_policy = random.choice(
         adapter_object.scenario_data.options.machine_controllers
-- 
2.43.0


From 5bd300af8e6b0e8fbdfadd2bb609b775b3544e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 044/101] fix: policies that the scenario does not offer must
 be exchangeable for offered ones

---
 prodsys/optimization/adapter_manipulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 665aa7e..57405a7 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -404,9 +404,10 @@ def change_control_policy(adapter_object: adapters.ProductionSystemAdapter) -> b
             adapter_object.scenario_data.options.transport_controllers
         )
 
-    if len(possible_control_policies) < 2:
+    if resource.control_policy in possible_control_policies:
+        possible_control_policies.remove(resource.control_policy)
+    if not possible_control_policies:
         return False
-    possible_control_policies.remove(resource.control_policy)
     new_control_policy = random.choice(possible_control_policies)
     resource.control_policy = new_control_policy
     return True
@@ -423,9 +424,10 @@ def change_routing_policy(adapter_object: adapters.ProductionSystemAdapter) -> N
     possible_routing_policies = deepcopy(
         adapter_object.scenario_data.options.routing_heuristics
     )
-    if len(possible_routing_policies) < 2:
+    if source.routing_heuristic in possible_routing_policies:
+        possible_routing_policies.remove(source.routing_heuristic)
+    if not possible_routing_policies:
         return False
-    possible_routing_policies.remove(source.routing_heuristic)
     source.routing_heuristic = random.choice(possible_routing_policies)
     return True
 
-- 
2.43.0


From 83ed8ea66541d91ccc48f25a15c581bb528e933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 045/101] fix: configurations that cannot transport a required
 auxiliary must be rejected

---
 prodsys/adapters/adapter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 0bf50d2..6ce1c53 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1273,6 +1273,12 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     required = util.flatten([product.processes for product in configuration.product_data if not isinstance(product.processes, dict)])
     required_dict_processes = util.flatten([[list(product.processes.keys()), list(product.processes.values())] for product in configuration.product_data if isinstance(product.processes, dict)])
     required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data])
+    required_auxiliaries = set(util.flatten([product.auxiliaries or [] for product in configuration.product_data]))
+    required.update(
+        auxiliary.transport_process
+        for auxiliary in configuration.auxiliary_data or []
+        if auxiliary.ID in required_auxiliaries or auxiliary.auxiliary_type in required_auxiliaries
+    )
 
     required_production_processes = get_production_processes_from_ids(configuration, required)
     required_transport_processes = get_transport_processes_from_ids(configuration, required)
-- 
2.43.0


From a47c83d1151aefef03cd78a005b98c8087285a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 046/101] fix: machines from which the optimization removed the
 last process must be readable from their file

---
 prodsys/models/resource_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 924d7a1..1e47cb8 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -96,7 +96,7 @@ class ResourceData(CoreAsset, Locatable):
             raise ValueError(
                 f"process_capacities {values['process_capacities']} must have the same length as processes {values['process_ids']}"
             )
-        if max(values["process_capacities"]) > values["capacity"]:
+        if max(values["process_capacities"], default=0) > values["capacity"]:
             raise ValueError("process_capacities must be smaller than capacity")
         return values
     
-- 
2.43.0


From dda008f2b0b25c4c0f3165562a981dabda33a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 047/101] fix: the evolutionary algorithm must run with
 population sizes that are no multiple of four

---
 prodsys/optimization/evolutionary_algorithm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/evolutionary_algorithm.py b/prodsys/optimization/evolutionary_algorithm.py
index bb40ed7..7b6d353 100644
--- a/prodsys/optimization/evolutionary_algorithm.py
+++ b/prodsys/optimization/evolutionary_algorithm.py
@@ -1,4 +1,5 @@
 import json
+import random
 import time
 import warnings
 import logging
@@ -304,7 +305,11 @@ def evolutionary_algorithm_optimization(
         performances[str(current_generation)] = {}
 
         # Vary population
-        offspring = tools.selTournamentDCD(population, len(population))
+        # the tournament selects multiples of four individuals
+        num_remaining = len(population) % 4
+        offspring = tools.selTournamentDCD(
+            population, len(population) - num_remaining
+        ) + random.sample(population, num_remaining)
         offspring = [toolbox.clone(ind) for ind in offspring]
         offspring = algorithms.varAnd(
             offspring, toolbox, cxpb=hyper_parameters.crossover_rate, mutpb=hyper_parameters.mutation_rate
-- 
2.43.0


From 350540a4de0393f2dcffa440cc480c7b0c06065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 048/101] fix: results must be available for runs in which
 nothing or hardly anything happens

---
 prodsys/simulation/logger.py    | 17 +++++++++++++++++
 prodsys/util/post_processing.py |  4 +++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/logger.py b/prodsys/simulation/logger.py
index 9c9589e..527c70e 100644
--- a/prodsys/simulation/logger.py
+++ b/prodsys/simulation/logger.py
@@ -171,6 +171,19 @@ def post_monitor_auxiliary_info(data: List[dict], auxiliary_info: auxiliary.Auxi
     }
     data.append(item)
 
+LOG_COLUMNS = [
+    "Time",
+    "Resource",
+    "State",
+    "State Type",
+    "Activity",
+    "Expected End Time",
+    "Product",
+    "Origin location",
+    "Target location",
+    "Empty Transport",
+]
+
 class EventLogger(Logger):
     """
     Logger for logging events.
@@ -186,6 +199,10 @@ class EventLogger(Logger):
             pd.DataFrame: The data as a pandas DataFrame.
         """
         df = pd.DataFrame(self.event_data)
+        # columns of events that did not happen, e.g. if the simulation ends before the first arrival
+        for column in LOG_COLUMNS:
+            if column not in df.columns:
+                df[column] = pd.Series(dtype="object")
         df["Activity"] = pd.Categorical(
             df["Activity"],
             categories=[
diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 433432e..42fd6e5 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -124,6 +124,7 @@ class PostProcessor:
         df["DateTime"] = pd.to_datetime(df["Time"], unit="m")
         df["Combined_activity"] = df["State"] + " " + df["Activity"]
         df["Product_type"] = df["Product"].str.rsplit("_", n=1).str[0]
+        df["State_type"] = pd.Series(dtype="object")
         df.loc[
             self.get_conditions_for_interface_state(df),
             "State_type",
@@ -515,6 +516,7 @@ class PostProcessor:
             df["Interrupted"] >= df["Used_Capacity"]
         )
 
+        df["Time_type"] = pd.Series(dtype="object")
         df.loc[STANDBY_CONDITION, "Time_type"] = "SB"
         df.loc[PRODUCTIVE_CONDITION, "Time_type"] = "PR"
         df.loc[INTERRUPTED_CONDITION, "Time_type"] = "UD"
@@ -1328,5 +1330,5 @@ class PostProcessor:
             List[float]: List of the aggregated WIP data ordered alphabetically by product type.
         """
         s = self.df_aggregated_WIP.copy()
-        s = s.drop(labels=["Total"])
+        s = s.drop(labels=["Total"], errors="ignore")
         return list(s.values)
-- 
2.43.0


From 56fa1f3bceb0490c1b2e2a6341f146db653816fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 049/101] fix: configurations that a mutation changed must not
 keep the name of the configuration they were made from

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 57405a7..8b26901 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -463,11 +463,13 @@ def get_mutation_operations(
 def mutation(individual):
     mutation_operation = random.choice(get_mutation_operations(individual[0]))
     adapter_object = individual[0]
-    if mutation_operation(adapter_object):
-        individual[0].ID = str(uuid1())
+    configuration_before = adapter_object.model_dump()
+    mutated = mutation_operation(adapter_object)
     add_default_queues_to_resources(adapter_object)
     clean_out_breakdown_states_of_resources(adapter_object)
     adjust_process_capacities(adapter_object)
+    if mutated or adapter_object.model_dump() != configuration_before:
+        individual[0].ID = str(uuid1())
 
     return (individual,)
 
-- 
2.43.0


From c601e7eecefe1e3e7cdce7038d6180b14ad7b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 050/101] fix: sources must not stop at products that are due
 at the same time

---
 prodsys/simulation/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/source.py b/prodsys/simulation/source.py
index 3ca8a4b..12b4713 100644
--- a/prodsys/simulation/source.py
+++ b/prodsys/simulation/source.py
@@ -79,8 +79,8 @@ class Source(BaseModel):
         """
         while True:
             inter_arrival_time = self.time_model.get_next_time()
-            if inter_arrival_time <= 0:
-                logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "event": f"Inter arrival time is less than or equal to 0. Stopping source."})
+            if inter_arrival_time < 0: # the schedule has ended
+                logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "event": f"Inter arrival time is less than 0. Stopping source."})
                 break
             yield self.env.timeout(
                 inter_arrival_time
-- 
2.43.0


From e312fd8a50de84e27f59dba51b56ef58cab9c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 051/101] fix: sources with a full output queue must wait for
 room instead of failing

---
 prodsys/simulation/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/simulation/source.py b/prodsys/simulation/source.py
index 12b4713..8d46d92 100644
--- a/prodsys/simulation/source.py
+++ b/prodsys/simulation/source.py
@@ -91,6 +91,8 @@ class Source(BaseModel):
             logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "product": product.product_data.ID, "event": f"Created product"})
             available_events_events = []
             for queue in self.output_queues[:1]: # a product rests in one queue only
+                while queue.full:
+                    yield queue.state_change
                 queue.reserve()
                 available_events_events.append(queue.put(product.product_data))
             yield events.AllOf(self.env, available_events_events)
-- 
2.43.0


From 5c22ae16103bb0968e5f6553dabb325a62993b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 052/101] fix: sources with the same scheduled time model must
 each follow the whole schedule

---
 prodsys/factories/time_model_factory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prodsys/factories/time_model_factory.py b/prodsys/factories/time_model_factory.py
index e831b07..6e72110 100644
--- a/prodsys/factories/time_model_factory.py
+++ b/prodsys/factories/time_model_factory.py
@@ -4,7 +4,7 @@ from typing import List, TYPE_CHECKING
 
 from pydantic import BaseModel, TypeAdapter
 from prodsys.models.time_model_data import TIME_MODEL_DATA
-from prodsys.simulation.time_model import TIME_MODEL, TimeModel
+from prodsys.simulation.time_model import TIME_MODEL, ScheduledTimeModel, TimeModel
 
 if TYPE_CHECKING:
     from prodsys.adapters import adapter
@@ -52,4 +52,7 @@ class TimeModelFactory(BaseModel):
         Returns:
             time_model.TimeModel: Time model object with the given ID.
         """
-        return [tm for tm in self.time_models if tm.time_model_data.ID == ID].pop()
+        time_model = [tm for tm in self.time_models if tm.time_model_data.ID == ID].pop()
+        if isinstance(time_model, ScheduledTimeModel): # everyone who uses a schedule follows it from its beginning
+            return ScheduledTimeModel(time_model_data=time_model.time_model_data)
+        return time_model
-- 
2.43.0


From 4f5245e09d30157ae21f8656b164920833d1deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 053/101] fix: resources must not work while they are charging

---
 prodsys/simulation/control.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 1ba4c9e..370744f 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -232,16 +232,20 @@ class ProductionController(Controller):
         """
         while True:
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Waiting for request or process to finish"})
-            if self.resource.requires_charging:
-                yield self.env.process(self.resource.charge())
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
+            charging_required = self.resource.requires_charging
+            if charging_required and not any(process.is_alive for process in self.running_processes):
+                yield self.env.process(self.resource.charge())
+                charging_required = False
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
+            if charging_required: # charging begins when all work has ended
+                continue
             if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full}) or all requests reserved ({self.reserved_requests_count == len(self.requests)})"})
                 continue
@@ -742,13 +746,17 @@ class TransportController(Controller):
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
-            if self.resource.requires_charging:
+            charging_required = self.resource.requires_charging
+            if charging_required and not any(process.is_alive for process in self.running_processes):
                 yield self.env.process(self.resource.charge())
+                charging_required = False
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
+            if charging_required: # charging begins when all work has ended
+                continue
             if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
-- 
2.43.0


From bae18b94569822e8dac7d88587d0cb315e0fd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 054/101] fix: machines that work in batches must charge, too

---
 prodsys/simulation/control.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 370744f..ecf9b32 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -504,11 +504,17 @@ class BatchController(Controller):
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
+            charging_required = self.resource.requires_charging
+            if charging_required and not any(process.is_alive for process in self.running_processes):
+                yield self.env.process(self.resource.charge())
+                charging_required = False
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
+            if charging_required: # charging begins when all work has ended
+                continue
             if self.resource.full or not self.get_next_batch():
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
-- 
2.43.0


From 336aa7ce2d9b5b93f32fe66b7e884aa5d184908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 055/101] fix: the WIP over time must be available as KPIs

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 42fd6e5..f626b72 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -1170,7 +1170,7 @@ class PostProcessor:
         df = df.loc[df["WIP_Increment"] != 0]
 
         KPIs = []
-        df["next_Time"] = df["Time"].groupby(by="Product_type").shift(-1)
+        df["next_Time"] = df.groupby(by="Product_type")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"])
         for index, row in df.iterrows():
             if row["Product_type"] == "Total":
-- 
2.43.0


From 72a1d4c33c6dd7bd78b54d7e1aeb9793cc9bbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 056/101] fix: the throughput times of single products must be
 available as KPIs

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index f626b72..22141fe 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -321,7 +321,7 @@ class PostProcessor:
                     name=performance_indicators.KPIEnum.DYNAMIC_THROUGHPUT_TIME,
                     context=context,
                     value=values["Throughput_time"],
-                    product=index,
+                    product=values["Product"],
                     product_type=values["Product_type"],
                     start_time=values["Start_time"],
                     end_time=values["End_time"],
-- 
2.43.0


From 9ed8dfeed91e069df0f2e6cfe3544bb981e0c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 057/101] fix: the usage of auxiliaries must be counted per
 auxiliary type without changing the raw data

---
 prodsys/util/post_processing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 22141fe..1cf6e71 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -950,9 +950,10 @@ class PostProcessor:
         START_USAGE_CONDITION = df["Activity"] == "started auxiliary usage"
         FINISHED_USAGE_CONDITION = df["Activity"] == "finished auxiliary usage"
 
-        df["Auxiliary_type"] = df["Product"].apply(lambda x: x.split("_")[0])
+        df = df.copy()
+        df["Auxiliary_type"] = df["Product"].str.rsplit("_", n=1).str[0]
         auxiliary_types = self.get_auxiliary_types()
-        df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)]
+        df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)].copy()
 
         df["auxiliary_WIP_Increment"] = 0
         df.loc[START_USAGE_CONDITION, "auxiliary_WIP_Increment"] = 1
@@ -984,7 +985,8 @@ class PostProcessor:
         df = pd.DataFrame()
         auxiliary_types = self.get_auxiliary_types()
         for auxiliary_type in auxiliary_types:
-            df_temp = self.df_raw.loc[self.df_raw["Product"].str.contains(auxiliary_type)].copy()
+            product_types = self.df_raw["Product"].str.rsplit("_", n=1).str[0]
+            df_temp = self.df_raw.loc[product_types == auxiliary_type].copy()
             df_temp = self.get_auxiliary_WIP_KPI(df_temp)
             df = df.combine_first(df_temp)
 
@@ -1086,7 +1088,7 @@ class PostProcessor:
             pd.DataFrame: Data frame with the auxiliary types of the resources.
         """
         df = self.df_raw.loc[self.df_raw["Activity"] == "created auxiliary"]
-        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.split("_")[0]).drop_duplicates().to_list()
+        auxiliary_types = df["Product"].drop_duplicates().str.rsplit("_", n=1).str[0].drop_duplicates().to_list()
         return auxiliary_types
 
     @cached_property
-- 
2.43.0


From c99bb67acc8f122b8a764536981e3b2c35e52a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 058/101] fix: plotting the utilisation must not round the mean
 WIP of the post processor

---
 prodsys/util/kpi_visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/kpi_visualization.py b/prodsys/util/kpi_visualization.py
index ee98b1f..928d593 100644
--- a/prodsys/util/kpi_visualization.py
+++ b/prodsys/util/kpi_visualization.py
@@ -349,7 +349,7 @@ def plot_util_WIP_resource(post_processor: post_processing.PostProcessor, normal
         post_processor (post_processing.PostProcessor): Post processor of the simulation.
         normalized (bool, optional): If True, the time per state is normalized with the total time of the simulation. Defaults to True.
     """
-    df_time_per_state = post_processor.df_mean_wip_per_station
+    df_time_per_state = post_processor.df_mean_wip_per_station.copy()
     df_time_per_state['mean_wip'] = np.maximum(np.ceil(df_time_per_state['mean_wip']), 1)
     fig1 = go.Figure()
     fig1.add_trace(go.Bar(name='mean_wip', x=df_time_per_state['Resource'], y=df_time_per_state['mean_wip'], marker_color='purple', yaxis='y2'))
-- 
2.43.0


From 0aa4c30c27dad08ea4a5cf886d68738ac9b8bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 059/101] fix: the availability must consider the resources
 without downtime

---
 prodsys/util/post_processing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 1cf6e71..95d22e4 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -838,8 +838,10 @@ class PostProcessor:
         """
         df_resource_states = self.df_aggregated_resource_states.copy()
         df_resource_states = df_resource_states.reset_index()
-        average_kpis = df_resource_states.groupby("Time_type")["percentage"].mean()
-        unplanned_downtime = average_kpis.get('UD', 0)
+        # resources without any downtime have no entry for it, but count for the average
+        number_of_resources = df_resource_states["Resource"].nunique()
+        total_downtime = df_resource_states.loc[df_resource_states["Time_type"] == "UD", "percentage"].sum()
+        unplanned_downtime = total_downtime / number_of_resources if number_of_resources else 0
         availibility = (100 - unplanned_downtime) / 100
         # TODO: also calculate performance based on arrival rates, available time and output of the system
         # TODO: calculate scrap rate after merging scrap simulation from feature branch
-- 
2.43.0


From 9668e974f638ca7aa98db528777aa5e88e690c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 060/101] fix: the production flow ratio must consider
 interruptions and processes without duration

---
 prodsys/util/post_processing.py | 43 ++++++++++++++-------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 95d22e4..c8b51ff 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -871,31 +871,24 @@ class PostProcessor:
         df_finished_product = self.df_finished_product.copy()
 
         if self.warm_up_cutoff:
-            df_finished_product = df_finished_product.loc[df_finished_product["Time"] >= self.warm_up_cutoff_time]
-
-
-        # Production
-        filtered_df = df_finished_product[df_finished_product['State Type'] == 'Production']
-        df_production = filtered_df[['Product', 'Product_type', 'State Type', 'Activity', 'Time']]
-        grouped_production_df = df_production.groupby(['Product','Product_type','Activity'])['Time'].sum().reset_index()
-        pivot_production_df = grouped_production_df.pivot(index=['Product', 'Product_type'], columns='Activity', values='Time')
-        pivot_production_df = pivot_production_df.fillna(0)
-        pivot_production_df['Production Time'] = (pivot_production_df['end state'] + pivot_production_df.get('end interrupt', 0) - pivot_production_df['start state'] - (pivot_production_df.get('end interrupt', 0) - pivot_production_df.get('start interrupt', 0)))
-        mean_production_time = pivot_production_df.groupby('Product_type')['Production Time'].mean().reset_index()
-
-        # Transport
-        df_transport = df_finished_product[df_finished_product['State Type'] == 'Transport']
-        df_transport = df_transport[['Product', 'Product_type', 'State Type', 'Activity', 'Time']]
-        df_transport = df_transport.groupby(['Product','Product_type','Activity'])['Time'].sum().reset_index()
-        df_transport = df_transport.pivot(index=['Product', 'Product_type'], columns='Activity', values='Time')
-        df_transport = df_transport.fillna(0)
-        df_transport['Transport Time'] = (df_transport['end state'] + df_transport.get('end interrupt', 0) - df_transport['start state'] - (df_transport.get('end interrupt', 0) - df_transport.get('start interrupt', 0)))
-        mean_transport_time = df_transport.groupby('Product_type')['Transport Time'].mean().reset_index()
-
-        df_aggregated_throughput_time_copy = self.df_aggregated_throughput_time.copy()
-
-        merged_df = pd.merge(df_aggregated_throughput_time_copy, mean_production_time, on='Product_type', how='inner')
-        merged_df = pd.merge(merged_df, mean_transport_time, on='Product_type', how='inner')
+            considered_products = self.df_throughput_with_warum_up_cutoff["Product"]
+            df_finished_product = df_finished_product.loc[df_finished_product["Product"].isin(considered_products)]
+        product_types = df_finished_product[["Product", "Product_type"]].drop_duplicates().set_index("Product")["Product_type"]
+
+        # Processes that continue after an interruption are logged with a further start and processes without duration only with their end.
+        df_processes = df_finished_product.loc[df_finished_product["State_type"] == "Process State"].sort_index()
+        previous = df_processes.groupby(["Resource", "State", "Product"])[["Activity", "Time"]].shift(1)
+        was_running = (previous["Activity"] == "start state") & df_processes["Activity"].isin(["end state", "start interrupt"])
+        df_processes = df_processes.assign(Duration=(df_processes["Time"] - previous["Time"]).where(was_running, 0.0))
+
+        def get_mean_time(state_type: str) -> pd.Series:
+            durations = df_processes.loc[df_processes["State Type"] == state_type].groupby("Product")["Duration"].sum()
+            return durations.reindex(product_types.index, fill_value=0.0).groupby(product_types).mean()
+
+        merged_df = self.df_aggregated_throughput_time.to_frame()
+        merged_df['Production Time'] = get_mean_time("Production")
+        merged_df['Transport Time'] = get_mean_time("Transport")
+        merged_df = merged_df.reset_index()
         merged_df['Idle Time'] = merged_df['Throughput_time'] - merged_df['Production Time'] - merged_df['Transport Time']
 
         percentage_df = pd.DataFrame({
-- 
2.43.0


From 292ce89da3ac4b2afff7f7cab4d9084daa342e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 061/101] fix: a warm-up cut-off without finished products must
 not fail

---
 prodsys/util/post_processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index c8b51ff..da7277b 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -296,6 +296,8 @@ class PostProcessor:
                 return df
             product_types_min_start_time[product_type] = df_product_type.iloc[cutoff_index]["Start_time"]
             product_types_max_start_time[product_type] = df_product_type["Start_time"].max()
+        if not product_types_min_start_time:
+            return df
         cut_off_time = min(product_types_min_start_time.values())
         for product_type, product_type_latest_start in product_types_max_start_time.items():
             if product_type_latest_start < cut_off_time:
-- 
2.43.0


From 00a2a5b801ca052af751357e590cd27ffcae9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 062/101] fix: times read from a csv file must be exactly those
 that were saved

---
 prodsys/util/post_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index da7277b..51ab876 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -55,7 +55,7 @@ class PostProcessor:
         """
         if filepath_input:
             self.filepath = filepath_input
-        self.df_raw = pd.read_csv(self.filepath)
+        self.df_raw = pd.read_csv(self.filepath, float_precision="round_trip")
         self.df_raw.drop(columns=["Unnamed: 0"], inplace=True)
 
     def get_conditions_for_interface_state(self, df: pd.DataFrame) -> pd.DataFrame:
-- 
2.43.0


From 84568a51cc154116e3aa677bb385ff67b2213c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 063/101] fix: a refused update of a project or adapter must
 not delete it

---
 app/backends/in_memory.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 4b17a07..0e94794 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -27,8 +27,13 @@ class InMemoryBackend:
         return project
 
     def update_project(self, project_id: str, project: Project) -> Project:
-        self.delete_project(project_id)
-        return self.create_project(project)
+        if project_id not in self.database:
+            raise HTTPException(404, f"Project {project_id} not found.")
+        if project.ID != project_id and project.ID in self.database:
+            raise HTTPException(409, f"Project {project.ID} already exists.")
+        del self.database[project_id]
+        self.database[project.ID] = project
+        return project
 
     def delete_project(self, project_id: str):
         if project_id not in self.database:
@@ -54,8 +59,15 @@ class InMemoryBackend:
         return adapter
 
     def update_adapter(self, project_id: str, adapter_id: str, adapter: JsonProductionSystemAdapter) -> JsonProductionSystemAdapter:
-        self.delete_adapter(project_id, adapter_id)
-        return self.create_adapter(project_id, adapter)
+        project = self.get_project(project_id)
+        self.get_adapter(project_id, adapter_id)
+        if adapter.ID != adapter_id and adapter.ID in [a.ID for a in project.adapters]:
+            raise HTTPException(409, f"Adapter {adapter.ID} already exists in project {project_id}.")
+        adapter_index = [a.ID for a in project.adapters].index(adapter_id)
+        project.adapters[adapter_index] = adapter
+        if adapter.ID != adapter_id and adapter_id in project.performances:
+            project.performances[adapter.ID] = project.performances.pop(adapter_id)
+        return adapter
 
     def delete_adapter(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
-- 
2.43.0


From 63da2257afb075273d3f390ec0c8eb1a90a3d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 064/101] fix: deleting an adapter must delete its performance

---
 app/backends/in_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 0e94794..b6976e4 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -74,8 +74,8 @@ class InMemoryBackend:
         for adapter_index, adapter in enumerate(project.adapters):
             if adapter.ID == adapter_id:
                 del project.adapters[adapter_index]
+                project.performances.pop(adapter_id, None)
                 return
-        self.delete_performance(project_id, adapter_id)
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
 
-- 
2.43.0


From 25e7aec3ecd5787de9a54145842fd4afbaf56d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 065/101] fix: the creation of an element with an existing ID
 must be refused

---
 app/dao/process_dao.py    | 13 +++++--------
 app/dao/product_dao.py    | 13 +++++--------
 app/dao/queue_dao.py      | 13 +++++--------
 app/dao/resources_dao.py  | 13 +++++--------
 app/dao/sink_dao.py       | 13 +++++--------
 app/dao/source_dao.py     | 13 +++++--------
 app/dao/state_dao.py      | 12 +++++-------
 app/dao/time_model_dao.py | 13 +++++--------
 8 files changed, 40 insertions(+), 63 deletions(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index c75b672..85c9544 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -21,15 +21,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, process: processes_data.PROCESS_DATA_UNION
 ) -> processes_data.PROCESS_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, process.ID):
-            raise HTTPException(
-                404,
-                f"Process with ID {process.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == process.ID for existing in adapter.process_data):
+        raise HTTPException(
+            409,
+            f"Process with ID {process.ID} already exists. Try updating instead.",
+        )
     adapter.process_data.append(process)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return process
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 6802fff..5a11662 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, product_id: str) -> product_data.Produ
 def add(
     project_id: str, adapter_id: str, product: product_data.ProductData
 ) -> product_data.ProductData:
-    try:
-        if get(project_id, adapter_id, product.ID):
-            raise HTTPException(
-                404,
-                f"Product with ID {product.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == product.ID for existing in adapter.product_data):
+        raise HTTPException(
+            409,
+            f"Product with ID {product.ID} already exists. Try updating instead.",
+        )
     adapter.product_data.append(product)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return product
diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 41e66bc..69b7d0e 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 def add(
     project_id: str, adapter_id: str, queue: queue_data.QueueData
 ) -> queue_data.QueueData:
-    try:
-        if get(project_id, adapter_id, queue.ID):
-            raise HTTPException(
-                404,
-                f"Queue with ID {queue.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == queue.ID for existing in adapter.queue_data):
+        raise HTTPException(
+            409,
+            f"Queue with ID {queue.ID} already exists. Try updating instead.",
+        )
     adapter.queue_data.append(queue)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return queue
diff --git a/app/dao/resources_dao.py b/app/dao/resources_dao.py
index 2388b1d..eaa510c 100644
--- a/app/dao/resources_dao.py
+++ b/app/dao/resources_dao.py
@@ -40,15 +40,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, resource: resource_data.RESOURCE_DATA_UNION
 ) -> resource_data.RESOURCE_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, resource.ID):
-            raise HTTPException(
-                404,
-                f"Resource with ID {resource.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == resource.ID for existing in adapter.resource_data):
+        raise HTTPException(
+            409,
+            f"Resource with ID {resource.ID} already exists. Try updating instead.",
+        )
     adapter.resource_data.append(resource)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return resource
diff --git a/app/dao/sink_dao.py b/app/dao/sink_dao.py
index 68cc1ea..cc2e7b4 100644
--- a/app/dao/sink_dao.py
+++ b/app/dao/sink_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, sink_id: str) -> sink_data.SinkData:
 def add(
     project_id: str, adapter_id: str, sink: sink_data.SinkData
 ) -> sink_data.SinkData:
-    try:
-        if get(project_id, adapter_id, sink.ID):
-            raise HTTPException(
-                404,
-                f"Sink with ID {sink.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == sink.ID for existing in adapter.sink_data):
+        raise HTTPException(
+            409,
+            f"Sink with ID {sink.ID} already exists. Try updating instead.",
+        )
     adapter.sink_data.append(sink)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return sink
diff --git a/app/dao/source_dao.py b/app/dao/source_dao.py
index 78a9ded..14ebc2c 100644
--- a/app/dao/source_dao.py
+++ b/app/dao/source_dao.py
@@ -21,15 +21,12 @@ def get(project_id: str, adapter_id: str, source_id: str) -> source_data.SourceD
 def add(
     project_id: str, adapter_id: str, source: source_data.SourceData
 ) -> source_data.SourceData:
-    try:
-        if get(project_id, adapter_id, source.ID):
-            raise HTTPException(
-                404,
-                f"Source with ID {source.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == source.ID for existing in adapter.source_data):
+        raise HTTPException(
+            409,
+            f"Source with ID {source.ID} already exists. Try updating instead.",
+        )
     adapter.source_data.append(source)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return source
diff --git a/app/dao/state_dao.py b/app/dao/state_dao.py
index 97bc685..20088d8 100644
--- a/app/dao/state_dao.py
+++ b/app/dao/state_dao.py
@@ -18,14 +18,12 @@ def get(project_id: str, adapter_id: str, state_id: str) -> state_data.STATE_DAT
 
 
 def add(project_id: str, adapter_id: str, state: state_data.STATE_DATA_UNION):
-    try:
-        if get(project_id, adapter_id, state.ID):
-            raise HTTPException(
-                404, f"State with ID {state.ID} already exists. Try updating instead."
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == state.ID for existing in adapter.state_data):
+        raise HTTPException(
+            409,
+            f"State with ID {state.ID} already exists. Try updating instead.",
+        )
     adapter.state_data.append(state)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return state
diff --git a/app/dao/time_model_dao.py b/app/dao/time_model_dao.py
index 78e47cf..c72ee25 100644
--- a/app/dao/time_model_dao.py
+++ b/app/dao/time_model_dao.py
@@ -23,15 +23,12 @@ def get(
 def add(
     project_id: str, adapter_id: str, time_model: time_model_data.TIME_MODEL_DATA
 ) -> time_model_data.TIME_MODEL_DATA:
-    try:
-        if get(project_id, adapter_id, time_model.ID):
-            raise HTTPException(
-                404,
-                f"Time model with ID {time_model.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    if any(existing.ID == time_model.ID for existing in adapter.time_model_data):
+        raise HTTPException(
+            409,
+            f"Time model with ID {time_model.ID} already exists. Try updating instead.",
+        )
     adapter.time_model_data.append(time_model)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
     return time_model
-- 
2.43.0


From 2605609f7a070f10f13b0d54b8bc9d784f11cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 066/101] fix: renaming an element to an existing ID must be
 refused

---
 app/dao/process_dao.py    | 4 ++++
 app/dao/product_dao.py    | 4 ++++
 app/dao/queue_dao.py      | 4 ++++
 app/dao/resources_dao.py  | 4 ++++
 app/dao/sink_dao.py       | 4 ++++
 app/dao/source_dao.py     | 4 ++++
 app/dao/state_dao.py      | 4 ++++
 app/dao/time_model_dao.py | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index 85c9544..7ca36f3 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -41,6 +41,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_process in enumerate(adapter.process_data):
         if existing_process.ID == process_id:
+            if process.ID != process_id and any(other.ID == process.ID for other in adapter.process_data):
+                raise HTTPException(
+                    409, f"Process with ID {process.ID} already exists."
+                )
             adapter.process_data[idx] = process
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return process
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 5a11662..202faf8 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -38,6 +38,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_product in enumerate(adapter.product_data):
         if existing_product.ID == product_id:
+            if product.ID != product_id and any(other.ID == product.ID for other in adapter.product_data):
+                raise HTTPException(
+                    409, f"Product with ID {product.ID} already exists."
+                )
             adapter.product_data[idx] = product
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return product
diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 69b7d0e..98d331c 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -38,6 +38,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_queue in enumerate(adapter.queue_data):
         if existing_queue.ID == queue_id:
+            if queue.ID != queue_id and any(other.ID == queue.ID for other in adapter.queue_data):
+                raise HTTPException(
+                    409, f"Queue with ID {queue.ID} already exists."
+                )
             adapter.queue_data[idx] = queue
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return queue
diff --git a/app/dao/resources_dao.py b/app/dao/resources_dao.py
index eaa510c..579c786 100644
--- a/app/dao/resources_dao.py
+++ b/app/dao/resources_dao.py
@@ -60,6 +60,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_resource in enumerate(adapter.resource_data):
         if existing_resource.ID == resource_id:
+            if resource.ID != resource_id and any(other.ID == resource.ID for other in adapter.resource_data):
+                raise HTTPException(
+                    409, f"Resource with ID {resource.ID} already exists."
+                )
             adapter.resource_data[idx] = resource
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return resource
diff --git a/app/dao/sink_dao.py b/app/dao/sink_dao.py
index cc2e7b4..07ea7ef 100644
--- a/app/dao/sink_dao.py
+++ b/app/dao/sink_dao.py
@@ -41,6 +41,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_sink in enumerate(adapter.sink_data):
         if existing_sink.ID == sink_id:
+            if sink.ID != sink_id and any(other.ID == sink.ID for other in adapter.sink_data):
+                raise HTTPException(
+                    409, f"Sink with ID {sink.ID} already exists."
+                )
             adapter.sink_data[idx] = sink
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return sink
diff --git a/app/dao/source_dao.py b/app/dao/source_dao.py
index 14ebc2c..9852d80 100644
--- a/app/dao/source_dao.py
+++ b/app/dao/source_dao.py
@@ -41,6 +41,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_source in enumerate(adapter.source_data):
         if existing_source.ID == source_id:
+            if source.ID != source_id and any(other.ID == source.ID for other in adapter.source_data):
+                raise HTTPException(
+                    409, f"Source with ID {source.ID} already exists."
+                )
             adapter.source_data[idx] = source
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return source
diff --git a/app/dao/state_dao.py b/app/dao/state_dao.py
index 20088d8..ee4911c 100644
--- a/app/dao/state_dao.py
+++ b/app/dao/state_dao.py
@@ -35,6 +35,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_state in enumerate(adapter.state_data):
         if existing_state.ID == state_id:
+            if state.ID != state_id and any(other.ID == state.ID for other in adapter.state_data):
+                raise HTTPException(
+                    409, f"State with ID {state.ID} already exists."
+                )
             adapter.state_data[idx] = state
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return state
diff --git a/app/dao/time_model_dao.py b/app/dao/time_model_dao.py
index c72ee25..cc0b3d0 100644
--- a/app/dao/time_model_dao.py
+++ b/app/dao/time_model_dao.py
@@ -43,6 +43,10 @@ def update(
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_time_model in enumerate(adapter.time_model_data):
         if existing_time_model.ID == time_model_id:
+            if time_model.ID != time_model_id and any(other.ID == time_model.ID for other in adapter.time_model_data):
+                raise HTTPException(
+                    409, f"Time model with ID {time_model.ID} already exists."
+                )
             adapter.time_model_data[idx] = time_model
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return time_model
-- 
2.43.0


From d8878d842bc2a8bb2b21891db11e1591e94addfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 067/101] fix: the deletion of a process must not fail after
 deleting it

---
 app/dao/process_dao.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index 7ca36f3..b6bab96 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -56,6 +56,6 @@ def delete(project_id: str, adapter_id: str, process_id: str):
     for idx, process in enumerate(adapter.process_data):
         if process.ID == process_id:
             adapter.process_data.pop(idx)
-            prodsys_backend.update_adapter(project_id, adapter)
+            prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
     raise HTTPException(404, f"Process with ID {process_id} not found.")
-- 
2.43.0


From 69cc867cb552e3dd4aec058ed7a1270eaa8ea0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 068/101] fix: the deletion of an unknown product must be
 answered with not found

---
 app/dao/product_dao.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 202faf8..874265a 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -55,3 +55,4 @@ def delete(project_id: str, adapter_id: str, product_id: str):
             adapter.product_data.pop(idx)
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
+    raise HTTPException(404, f"Product with ID {product_id} not found.")
-- 
2.43.0


From c52e04b88dc658214ee6b9f314c5584164cf094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 069/101] fix: the list of adapters must be returned

---
 app/routers/adapters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/routers/adapters.py b/app/routers/adapters.py
index 8b9d33e..0c15a8e 100644
--- a/app/routers/adapters.py
+++ b/app/routers/adapters.py
@@ -1,4 +1,4 @@
-from typing import List, Dict
+from typing import List
 
 
 from fastapi import APIRouter
@@ -14,7 +14,7 @@ router = APIRouter(
 )
 
 
-@router.get("/", response_model=Dict[str, JsonProductionSystemAdapter])
+@router.get("/", response_model=List[JsonProductionSystemAdapter])
 async def get_adapters(project_id: str) -> List[JsonProductionSystemAdapter]:
     return prodsys_backend.get_adapters(project_id)
 
-- 
2.43.0


From 9f527ea863be15a12b62ff9146775d8adaebf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 070/101] fix: creating and updating a process must return the
 process

---
 app/routers/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/routers/processes.py b/app/routers/processes.py
index 6a72590..9da0e95 100644
--- a/app/routers/processes.py
+++ b/app/routers/processes.py
@@ -39,7 +39,7 @@ async def get_processes(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully created process",
@@ -73,7 +73,7 @@ async def get_process(project_id: str, adapter_id: str, process_id: str):
 
 @router.put(
     "/{process_id}",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully updated process",
-- 
2.43.0


From 31da75d050ec74a7f68ee1793ce84009452261c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 071/101] fix: throughput time must be allowed as an objective

---
 app/dao/scenario_dao.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index ccb8600..5731ba3 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -103,7 +103,7 @@ def add_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
@@ -129,7 +129,7 @@ def update_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
-- 
2.43.0


From 6e21d5463963ec0ff02d9f943be2c6de5a7372fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 072/101] fix: unknown objectives must be answered with not
 found

---
 app/dao/scenario_dao.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index 5731ba3..4e67764 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -140,7 +140,7 @@ def update_objective(
         if objective.name == existing_objective.name:
             scenario.objectives[idx] = objective
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective.name} not found for scenario of adapter {adapter_id}.",
     )
@@ -154,7 +154,7 @@ def delete_objective(
         if objective.name == objective_name:
             scenario.objectives.pop(idx)
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective_name} not found for scenario of adapter {adapter_id}.",
     )
-- 
2.43.0


From b0f8bf6eea93d27ebda44f0aee74c8a8eff8b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 073/101] fix: the constraints of a scenario must be readable
 where they are written

---
 app/routers/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/routers/scenario.py b/app/routers/scenario.py
index af25de6..a3e9110 100644
--- a/app/routers/scenario.py
+++ b/app/routers/scenario.py
@@ -63,7 +63,7 @@ async def update_scenario(
 
 
 @router.get(
-    "/contraints",
+    "/constraints",
     response_model=scenario_data.ScenarioConstrainsData,
     responses={
         200: {
-- 
2.43.0


From d2dea9d11867a588464330576e8184700c78a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 074/101] fix: the progress of a simulation must not be that of
 another project

---
 app/dependencies.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 49acda7..1c41efd 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -1,5 +1,5 @@
 import time
-from typing import Dict
+from typing import Dict, Tuple
 
 import os
 import json
@@ -30,17 +30,18 @@ def get_backend() -> Backend:
 
 
 prodsys_backend = get_backend()
-runners: Dict[str, prodsys.runner.Runner] = {}
+runners: Dict[Tuple[str, str], prodsys.runner.Runner] = {}
 
 
 def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressReport:
-    if adapter_id not in runners:
+    if (project_id, adapter_id) not in runners:
         raise HTTPException(
             404, f"No simulation was yet started for adapter {adapter_id} in project {project_id}."
         )
-    steps_done = runners[adapter_id].env.pbar.n
-    steps_total = runners[adapter_id].env.pbar.total
-    time_done = time.time() - runners[adapter_id].env.pbar.start_t
+    progress_bar = runners[(project_id, adapter_id)].env.pbar
+    steps_done = progress_bar.n
+    steps_total = progress_bar.total
+    time_done = time.time() - progress_bar.start_t
 
     ratio_done = steps_done / steps_total
     expected_total_time = time_done / ratio_done
@@ -57,7 +58,7 @@ def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: in
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.seed = seed
     runner_object = prodsys.runner.Runner(adapter=adapter)
-    runners[adapter_id] = runner_object
+    runners[(project_id, adapter_id)] = runner_object
     runner_object.initialize_simulation()
     runner_object.run(run_length)
     performance = runner_object.get_performance_data()
-- 
2.43.0


From 8734db066d438be6a96c5103dc074e9e0908c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 075/101] fix: a simulation must not change the stored adapter

---
 app/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 1c41efd..4b24141 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -55,7 +55,7 @@ def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressRepo
     )
 
 def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: int):
-    adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    adapter = prodsys_backend.get_adapter(project_id, adapter_id).model_copy(deep=True)
     adapter.seed = seed
     runner_object = prodsys.runner.Runner(adapter=adapter)
     runners[(project_id, adapter_id)] = runner_object
-- 
2.43.0


From 1af7ee8ad5e7c86644215253f8cac5b5455b7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 076/101] fix: simulating an unknown adapter must be answered
 with not found

---
 app/routers/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/routers/simulation.py b/app/routers/simulation.py
index 7444436..5394c34 100644
--- a/app/routers/simulation.py
+++ b/app/routers/simulation.py
@@ -23,8 +23,8 @@ async def simulate(
     background_tasks: BackgroundTasks,
     seed: Optional[int] = 0,
 ):
+    adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if not run_length:
-        adapter = prodsys_backend.get_adapter(project_id, adapter_id)
         if adapter.scenario_data and adapter.scenario_data.info:
             run_length = adapter.scenario_data.info.time_range
         else:
-- 
2.43.0


From dfcbc9d43ed87bd00190c5e19f76176e1915fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 077/101] fix: the plots of an adapter must show its own
 simulation

---
 app/backends/in_memory.py | 25 ++++++++++++++-----------
 app/models/project.py     |  4 ++--
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index b6976e4..7f49560 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -67,6 +67,8 @@ class InMemoryBackend:
         project.adapters[adapter_index] = adapter
         if adapter.ID != adapter_id and adapter_id in project.performances:
             project.performances[adapter.ID] = project.performances.pop(adapter_id)
+        if adapter.ID != adapter_id and adapter_id in project.post_processors:
+            project.post_processors[adapter.ID] = project.post_processors.pop(adapter_id)
         return adapter
 
     def delete_adapter(self, project_id: str, adapter_id: str):
@@ -75,6 +77,7 @@ class InMemoryBackend:
             if adapter.ID == adapter_id:
                 del project.adapters[adapter_index]
                 project.performances.pop(adapter_id, None)
+                project.post_processors.pop(adapter_id, None)
                 return
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
@@ -112,29 +115,29 @@ class InMemoryBackend:
     def get_post_processor(self, project_id: str, adapter_id: str) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
+        if adapter_id not in project.post_processors:
             raise HTTPException(404, f"PostProcessor not found in adapter {adapter_id} of project {project_id}")
-        return project.post_processor
+        return project.post_processors[adapter_id]
 
     def create_post_processor(self, project_id: str, adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if project.post_processor:
-            raise HTTPException(409, f"PostProcessor already exists in project {project_id}. Try updating it with put.")
-        project.post_processor = post_processor
+        if adapter_id in project.post_processors:
+            raise HTTPException(409, f"PostProcessor for adapter {adapter_id} already exists in project {project_id}. Try updating it with put.")
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def update_post_processor(self, project_id: str,  adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
-            raise HTTPException(404, f"PostProcessor not found in project {project_id}. Try creating it with post.")
-        project.post_processor = post_processor
+        if adapter_id not in project.post_processors:
+            raise HTTPException(404, f"PostProcessor for adapter {adapter_id} not found in project {project_id}. Try creating it with post.")
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def delete_post_processor(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
-            raise HTTPException(404, f"PostProcessor not found in project {project_id}.")
-        project.post_processor = None
\ No newline at end of file
+        if adapter_id not in project.post_processors:
+            raise HTTPException(404, f"PostProcessor for adapter {adapter_id} not found in project {project_id}.")
+        del project.post_processors[adapter_id]
diff --git a/app/models/project.py b/app/models/project.py
index 4056127..f42f897 100644
--- a/app/models/project.py
+++ b/app/models/project.py
@@ -20,7 +20,8 @@ class Project(BaseModel):
     adapters: List[prodsys.adapters.JsonProductionSystemAdapter] = []
     # TODO: maybe allow saving performances in project also for adapter_id and specific seed
     performances: Optional[Dict[str, Performance]] = {}
-    post_processor: Optional[PostProcessor] = Field(default=None, exclude=True)
+    # the key is the adapter ID
+    post_processors: Dict[str, PostProcessor] = Field(default={}, exclude=True)
     #TODO: make wrapper for postprocessor for schema
 
     model_config = ConfigDict(
@@ -36,7 +37,6 @@ class Project(BaseModel):
                     "performances": {
                         "Example Adapter": Performance.model_config["json_schema_extra"]["examples"][0]
                     },
-                    "post_processor": None
                 }
             ]
         }
-- 
2.43.0


From 1ef207db222a499c4862ded40f8ecce31334123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 078/101] fix: plots that do not exist must be answered with
 not found

---
 app/dependencies.py  |  5 +----
 app/routers/plots.py | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 4b24141..72c7972 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -75,10 +75,7 @@ def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: in
 def get_post_processor(
     project_id: str, adapter_id: str
 ) -> PostProcessor:
-    try:
-        return prodsys_backend.get_post_processor(project_id, adapter_id)
-    except Exception as e:
-        raise HTTPException(status_code=500, detail=str(e))
+    return prodsys_backend.get_post_processor(project_id, adapter_id)
 
 def get_progress_of_optimization(project_id: str, adapter_id: str) -> float:
     # TODO: implement function that returns progress of optimization --> change functional approach of optimization in class and add a progress attribute
diff --git a/app/routers/plots.py b/app/routers/plots.py
index eb382ff..0e8f766 100644
--- a/app/routers/plots.py
+++ b/app/routers/plots.py
@@ -25,6 +25,8 @@ async def get_throughput_time_distribution(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_throughput_time_distribution(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
     
@@ -37,6 +39,8 @@ async def get_line_balance_kpis(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_line_balance_kpis(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -49,6 +53,8 @@ async def get_oee(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_oee(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -61,6 +67,8 @@ async def get_production_flow_rate_per_product(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_production_flow_rate_per_product(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -73,6 +81,8 @@ async def get_resource_utilization(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_boxplot_resource_utilization(post_processor, return_html=True)
         return HTMLResponse(content=html_content, media_type="text/html")
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -85,6 +95,8 @@ async def get_throughput_time_over_time(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_throughput_time_over_time(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -98,6 +110,8 @@ async def get_time_per_state_of_resources(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_time_per_state_of_resources(post_processor, normalized=normalized, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -111,6 +125,8 @@ async def get_util_WIP_resource(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_util_WIP_resource(post_processor, normalized=normalized, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -124,6 +140,8 @@ async def get_transport_utilization_over_time(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_transport_utilization_over_time(post_processor, transport_resource_names=transport_resource_names, return_html=True)
         return HTMLResponse(content=html_content, media_type="text/html")
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -136,6 +154,8 @@ async def get_WIP_with_range(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_WIP_with_range(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -148,6 +168,8 @@ async def get_WIP(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_WIP(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
 
@@ -160,6 +182,8 @@ async def get_WIP_per_resource(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_WIP_per_resource(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
     
@@ -172,5 +196,7 @@ async def get_auxiliary_WIP(
         post_processor = prodsys_backend.get_post_processor(project_id, adapter_id)
         html_content = kpi_visualization.plot_auxiliary_WIP(post_processor, return_html=True)
         return HTMLResponse(content=html_content)
+    except HTTPException:
+        raise
     except Exception as e:
         raise HTTPException(status_code=500, detail=str(e))
\ No newline at end of file
-- 
2.43.0


From f28b001f0dc71baf51b0e879b0905928a77ee308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 079/101] fix: registering an optimised adapter must add it
 once and leave the results of the baseline

---
 app/dependencies.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 72c7972..03bc06b 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -88,17 +88,12 @@ def prepare_adapter_from_optimization(
     baseline_adapter_id: str,
     solution_id: str,
 ):
-    prodsys_backend.delete_post_processor(project_id, baseline_adapter_id)
     origin_adapter = prodsys_backend.get_adapter(project_id, baseline_adapter_id)
     adapter_object_optimized.scenario_data = origin_adapter.scenario_data
     adapter_object_optimized.ID = solution_id
 
     prodsys_backend.create_adapter(project_id, adapter_object_optimized)
 
-    project = prodsys_backend.get_project(project_id)
-    project.adapters.append(adapter_object_optimized)
-
-
     runner_object = prodsys.runner.Runner(adapter=adapter_object_optimized)
     runner_object.initialize_simulation()
     if adapter_object_optimized.scenario_data and adapter_object_optimized.scenario_data.info.time_range:
@@ -106,21 +101,11 @@ def prepare_adapter_from_optimization(
     else:
         run_length = 2 * 7 * 24 * 60
     runner_object.run(run_length)
-    
-    post_processor = runner_object.get_post_processor()
-    try:
-        prodsys_backend.create_post_processor(project_id, baseline_adapter_id, post_processor)
-    except:
-        prodsys_backend.update_post_processor(project_id, baseline_adapter_id, post_processor)
 
+    post_processor = runner_object.get_post_processor()
+    prodsys_backend.create_post_processor(project_id, solution_id, post_processor)
     performance = runner_object.get_performance_data()
-    project.performances[adapter_object_optimized.ID] = performance
-    try:
-        prodsys_backend.create_performance(project_id, baseline_adapter_id, performance)
-    except:
-        prodsys_backend.update_performance(project_id, baseline_adapter_id, performance)
-
-    prodsys_backend.update_project(project_id, project)
+    prodsys_backend.create_performance(project_id, solution_id, performance)
 
 
 def get_configuration_results_adapter_from_filesystem(
-- 
2.43.0


From 74f358ecf299555149a9095a9bc1839ff22174fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 080/101] fix: exactly the requested solution of an
 optimisation must be returned

---
 app/dependencies.py         | 9 +++++----
 app/routers/optimization.py | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 03bc06b..7efba2b 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -113,12 +113,13 @@ def get_configuration_results_adapter_from_filesystem(
 ):
     # TODO: use backend to save and retrieve data here...
     adapter_object = prodsys.adapters.JsonProductionSystemAdapter()
-    files = os.listdir(f"data/{project_id}/{adapter_id}")
-    if not any(solution_id in file for file in files):
+    folder = f"data/{project_id}/{adapter_id}"
+    files = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
+    solution_files = [file for file in files if file == f"{solution_id}.json" or file.endswith(f"_{solution_id}.json")]
+    if not solution_files:
         raise HTTPException(
             404,
             f"Solution {solution_id} for adapter {adapter_id} in project {project_id} does not exist.",
         )
-    file_name = next(file for file in files if solution_id in file)
-    adapter_object.read_data(f"data/{project_id}/{adapter_id}/{file_name}")
+    adapter_object.read_data(f"{folder}/{solution_files[0]}")
     return adapter_object
diff --git a/app/routers/optimization.py b/app/routers/optimization.py
index 47b0c07..1f61813 100644
--- a/app/routers/optimization.py
+++ b/app/routers/optimization.py
@@ -213,6 +213,6 @@ def get_optimization_pareto_front(project_id: str, adapter_id: str):
 def get_optimization_solution(
     project_id: str, adapter_id: str, solution_id: str
 ) -> prodsys.adapters.JsonProductionSystemAdapter:
-    with open(f"data/{project_id}/{adapter_id}/{solution_id}.json") as json_file:
-        data = json.load(json_file)
-    return data
+    return get_configuration_results_adapter_from_filesystem(
+        project_id, adapter_id, solution_id
+    )
-- 
2.43.0


From a2ca1bfddc5469a4f0607d52144021002f981b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 081/101] fix: simulations in several threads must not share
 their random numbers

---
 prodsys/simulation/sim.py | 37 ++++++++++++++++++++++++++++---------
 prodsys/util/runner.py    | 19 ++++++++++---------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/prodsys/simulation/sim.py b/prodsys/simulation/sim.py
index ae79b03..351a6b1 100644
--- a/prodsys/simulation/sim.py
+++ b/prodsys/simulation/sim.py
@@ -1,7 +1,9 @@
 from __future__ import annotations
 
 import contextlib
+import os
 import random
+import threading
 from typing import Any, TYPE_CHECKING
 
 import numpy as np
@@ -27,6 +29,22 @@ VERBOSE = 1
 Determines whether the simulation should be verbose or not. If set to 1, a progress bar will be shown. Otherwise, no progress bar will be shown.
 """
 
+random_numbers_lock = threading.RLock()
+"""
+Simulations draw from the global random number generators, so that only one thread at a time can use them.
+"""
+
+
+def _renew_random_numbers_lock():
+    global random_numbers_lock
+    random_numbers_lock = threading.RLock()
+
+
+if hasattr(os, "register_at_fork"):
+    # the lock could have been held by another thread of the parent process
+    os.register_at_fork(after_in_child=_renew_random_numbers_lock)
+
+
 @contextlib.contextmanager
 def temp_seed(seed: int):
     """
@@ -35,15 +53,16 @@ def temp_seed(seed: int):
     Args:
         seed (int): The seed to set for the simulation run.
     """
-    np_state = np.random.get_state()
-    p_state = random.getstate()
-    np.random.seed(seed)
-    random.seed(seed)
-    try:
-        yield
-    finally:
-        np.random.set_state(np_state)
-        random.setstate(p_state)
+    with random_numbers_lock:
+        np_state = np.random.get_state()
+        p_state = random.getstate()
+        np.random.seed(seed)
+        random.seed(seed)
+        try:
+            yield
+        finally:
+            np.random.set_state(np_state)
+            random.setstate(p_state)
 
 class Environment(core.Environment):
     """
diff --git a/prodsys/util/runner.py b/prodsys/util/runner.py
index 32b52f0..c1affa2 100644
--- a/prodsys/util/runner.py
+++ b/prodsys/util/runner.py
@@ -57,15 +57,16 @@ def temp_seed(seed: int):
     Args:
         seed (int): The seed to set for the simulation run.
     """
-    np_state = np.random.get_state()
-    p_state = random.getstate()
-    np.random.seed(seed)
-    random.seed(seed)
-    try:
-        yield
-    finally:
-        np.random.set_state(np_state)
-        random.setstate(p_state)
+    with sim.random_numbers_lock:
+        np_state = np.random.get_state()
+        p_state = random.getstate()
+        np.random.seed(seed)
+        random.seed(seed)
+        try:
+            yield
+        finally:
+            np.random.set_state(np_state)
+            random.setstate(p_state)
 
 
 class Runner:
-- 
2.43.0


From 621567fcf1973b6d7c8b551605dab8b0679c2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 082/101] fix: resources and products with missing fields must
 be refused as invalid

---
 prodsys/models/product_data.py  | 4 +++-
 prodsys/models/resource_data.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/prodsys/models/product_data.py b/prodsys/models/product_data.py
index 957f90c..31c6b4c 100644
--- a/prodsys/models/product_data.py
+++ b/prodsys/models/product_data.py
@@ -120,9 +120,11 @@ class ProductData(CoreAsset):
                    
     @model_validator(mode="before")
     def check_processes(cls, values):
+        if not isinstance(values, dict):
+            return values
         if "product_type" in values and values["product_type"]:
             values["ID"] = values["product_type"]
-        else:
+        elif values.get("ID"):
             values["product_type"] = values["ID"]
         return values
     
diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 1e47cb8..2aaa1b9 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -90,6 +90,8 @@ class ResourceData(CoreAsset, Locatable):
     def check_process_capacity(cls, values):
         if not isinstance(values, dict):
             return values
+        if values.get("capacity") is None or values.get("process_ids") is None:
+            return values
         if not "process_capacities" in values or values["process_capacities"] is None:
             values["process_capacities"] = [values["capacity"] for _ in values["process_ids"]]
         if len(values["process_capacities"]) != len(values["process_ids"]):
@@ -204,6 +206,8 @@ class ProductionResourceData(ResourceData, InOutLocatable):
     def validate_batch_size(cls, data: Any):
         if not isinstance(data, dict):
             return data
+        if data.get("capacity") is None or data.get("controller") is None:
+            return data
         if ("batch_size" in data and data["batch_size"] is not None) and data["controller"] != ControllerEnum.BatchController:
             raise ValueError("Batch size can only be set for resources with a BatchController.")
         if ("batch_size" not in data or data["batch_size"] is None) and data["controller"] == ControllerEnum.BatchController:
-- 
2.43.0


From 9e9010238974090184e5a0a459e497fe9e1daa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:38 +0000
Subject: [PATCH 083/101] fix: auxiliaries without ID must be refused as
 invalid

---
 prodsys/models/auxiliary_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/auxiliary_data.py b/prodsys/models/auxiliary_data.py
index 19580af..57c8c87 100644
--- a/prodsys/models/auxiliary_data.py
+++ b/prodsys/models/auxiliary_data.py
@@ -39,7 +39,7 @@ class AuxiliaryData(CoreAsset):
     def check_processes(cls, values):
         if "auxiliary_type" in values and values["auxiliary_type"]:
             values["ID"] = values["auxiliary_type"]
-        else:
+        elif values.get("ID"):
             values["auxiliary_type"] = values["ID"]
         return values
 
-- 
2.43.0


From d51769b9bc128eedde023475e16d3f39db49cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 084/101] fix: stores must keep their location when they are
 written or read as queues

---
 app/dao/queue_dao.py | 12 ++++++------
 app/routers/queue.py | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 98d331c..27de52b 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -5,12 +5,12 @@ from app.dependencies import prodsys_backend
 from prodsys.models import queue_data
 
 
-def get_all(project_id: str, adapter_id: str) -> List[queue_data.QueueData]:
+def get_all(project_id: str, adapter_id: str) -> List[queue_data.QUEUE_DATA_UNION]:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     return adapter.queue_data
 
 
-def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData:
+def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for queue in adapter.queue_data:
         if queue.ID == queue_id:
@@ -19,8 +19,8 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 
 
 def add(
-    project_id: str, adapter_id: str, queue: queue_data.QueueData
-) -> queue_data.QueueData:
+    project_id: str, adapter_id: str, queue: queue_data.QUEUE_DATA_UNION
+) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if any(existing.ID == queue.ID for existing in adapter.queue_data):
         raise HTTPException(
@@ -33,8 +33,8 @@ def add(
 
 
 def update(
-    project_id: str, adapter_id: str, queue_id: str, queue: queue_data.QueueData
-) -> queue_data.QueueData:
+    project_id: str, adapter_id: str, queue_id: str, queue: queue_data.QUEUE_DATA_UNION
+) -> queue_data.QUEUE_DATA_UNION:
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     for idx, existing_queue in enumerate(adapter.queue_data):
         if existing_queue.ID == queue_id:
diff --git a/app/routers/queue.py b/app/routers/queue.py
index 3048ce5..f161d29 100644
--- a/app/routers/queue.py
+++ b/app/routers/queue.py
@@ -22,7 +22,7 @@ router = APIRouter(
 
 @router.get(
     "/",
-    response_model=List[queue_data.QueueData],
+    response_model=List[queue_data.QUEUE_DATA_UNION],
     responses={
         200: {
             "description": "Sucessfully returned queues",
@@ -37,22 +37,22 @@ async def get_queues(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def create_queue(
     project_id: str,
     adapter_id: str,
     queue: Annotated[
-        queue_data.QueueData,
+        queue_data.QUEUE_DATA_UNION,
         Body(examples=queue_data.QueueData.model_config["json_schema_extra"]["examples"]),
     ],
-) -> queue_data.QueueData:
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.add(project_id, adapter_id, queue)
 
 
 @router.get(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully returned queue",
@@ -67,14 +67,14 @@ async def get_queue(project_id: str, adapter_id: str, queue_id: str):
 
 @router.put(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def update_queue(
     project_id: str,
     adapter_id: str,
     queue_id: str,
-    queue: Annotated[queue_data.QueueData, Body(examples=QUEUE_LIST_EXAMPLE)],
-) -> queue_data.QueueData:
+    queue: Annotated[queue_data.QUEUE_DATA_UNION, Body(examples=QUEUE_LIST_EXAMPLE)],
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.update(project_id, adapter_id, queue_id, queue)
 
 
-- 
2.43.0


From 6c75f51d405b7773726979a9f00d6d03538859e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 085/101] fix: a registered solution must not share the
 scenario of the baseline

---
 app/dependencies.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 7efba2b..841d6a3 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -1,3 +1,4 @@
+import copy
 import time
 from typing import Dict, Tuple
 
@@ -89,7 +90,9 @@ def prepare_adapter_from_optimization(
     solution_id: str,
 ):
     origin_adapter = prodsys_backend.get_adapter(project_id, baseline_adapter_id)
-    adapter_object_optimized.scenario_data = origin_adapter.scenario_data
+    adapter_object_optimized.scenario_data = copy.deepcopy(
+        origin_adapter.scenario_data
+    )
     adapter_object_optimized.ID = solution_id
 
     prodsys_backend.create_adapter(project_id, adapter_object_optimized)
-- 
2.43.0


From 0519d244b433a05d07bc49d241c80a1b4e5667b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 086/101] fix: the routing environment must be able to start an
 episode

---
 prodsys/control/routing_control_env.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index 1767897..e4742cd 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -123,7 +123,13 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.chose_resource_event = events.Event(self.runner.env)
         agent_routing_heuristic = partial(router.agent_routing_heuristic, self)
-        self.router = router.Router(self.runner.resource_factory, self.runner.sink_factory, agent_routing_heuristic)  
+        self.router = router.Router(
+            self.runner.resource_factory,
+            self.runner.sink_factory,
+            self.runner.auxiliary_factory,
+            agent_routing_heuristic,
+            self.runner.product_factory,
+        )
         
         sources = self.runner.source_factory.sources
         for source in sources:
-- 
2.43.0


From ce39305d0963b96cfb8beb7c5018f14eff6e8b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 087/101] fix: the agent's choice of a production resource must
 be executed

---
 prodsys/simulation/router.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index d891b1b..247e873 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -191,7 +191,9 @@ class Router:
                 }
             )
 
-        self.routing_heuristic(production_requests)
+        decision = self.routing_heuristic(production_requests)
+        if decision is not None: # the decision is made after the heuristic returned
+            yield decision
         if not production_requests:
             return
         routed_production_request = production_requests.pop(0)
@@ -835,6 +837,7 @@ def agent_routing_heuristic(
         return
     gym_env.set_possible_requests(possible_requests)
     gym_env.interrupt_simulation_event.succeed()
+    return gym_env.runner.env.timeout(0)
 
 
 ROUTING_HEURISTIC = {
-- 
2.43.0


From 257af83b871d1ade1c9e21466971b79c98f35900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 088/101] fix: a delayed transport to a store must not reserve
 another place

---
 prodsys/simulation/router.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index 247e873..1a91e8d 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -391,9 +391,13 @@ class Router:
 
         storage_request = random.choice(to_transport_requests)
         storage_request.resource.reserve()
-        transport_request = yield env.process(
-            self.route_transport_resource_for_item(storage_request)
-        )
+        transport_request = None
+        while not transport_request: # the place in the store is reserved only once
+            transport_request = yield env.process(
+                self.route_transport_resource_for_item(storage_request)
+            )
+            if not transport_request:
+                yield env.timeout(0)
 
         return transport_request
 
-- 
2.43.0


From 5be930cd81479e14de7f9407e88a23f7f84dcbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 089/101] fix: a delayed transport of an auxiliary to its store
 must be tried again

---
 prodsys/simulation/product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/product.py b/prodsys/simulation/product.py
index 27f136b..2deb39b 100644
--- a/prodsys/simulation/product.py
+++ b/prodsys/simulation/product.py
@@ -366,7 +366,7 @@ class Product(BaseModel):
                         )
                     )
                 )
-                if not auxiliary_request:
+                if not auxiliary_transport_request:
                     yield self.env.timeout(0)
                     continue
                 break
-- 
2.43.0


From 72d9572e984284d4efe172db2a182476e1ec379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 090/101] fix: filled output queues must be observable

---
 prodsys/simulation/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index 7b1f854..da2637f 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -63,8 +63,8 @@ def observe_output_queue(resource: resources.Resource, product_factory: product_
             production_process_info = QueueObservation(
                 product=product_data.ID,
                 activity="waiting",
-                process=product.next_prodution_process,
-                next_resource=product.current_locatable,
+                process=product.next_prodution_process.process_data.ID if product.next_prodution_process else "",
+                next_resource=product.current_locatable.data.ID,
                 waiting_since=product.product_info.event_time
             )
             queue_observation.append(production_process_info)
-- 
2.43.0


From 7fbffe647b45c684b39233db7c0654a37f588e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 091/101] fix: environments must accept the options of a reset

---
 prodsys/control/routing_control_env.py    | 4 ++--
 prodsys/control/sequencing_control_env.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index e4742cd..c31cd05 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -109,7 +109,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         """
         pass
 
-    def reset(self, seed=None):
+    def reset(self, seed: Optional[int]=None, options: Optional[dict]=None):
         """
         Reset env for new episode and run until first point of observation.
 
@@ -117,7 +117,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
             seed (Optional[int], optional): The seed for the environment. Defaults to None.
             options (Optional[dict], optional): The options for the environment. Defaults to None.
         """
-        super().reset(seed=seed)
+        super().reset(seed=seed, options=options)
 
         self.runner.initialize_simulation()
         self.interrupt_simulation_event = events.Event(self.runner.env)
diff --git a/prodsys/control/sequencing_control_env.py b/prodsys/control/sequencing_control_env.py
index d900316..7c9955c 100644
--- a/prodsys/control/sequencing_control_env.py
+++ b/prodsys/control/sequencing_control_env.py
@@ -113,7 +113,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
         """
         pass
 
-    def reset(self, seed=None):
+    def reset(self, seed: Optional[int]=None, options: Optional[dict]=None):
         """
         Reset env for new episode and run until first point of observation.
 
@@ -121,7 +121,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
             seed (Optional[int], optional): The seed for the environment. Defaults to None.
             options (Optional[dict], optional): The options for the environment. Defaults to None.
         """
-        super().reset(seed=seed)
+        super().reset(seed=seed, options=options)
 
         self.runner.initialize_simulation()
         self.interrupt_simulation_event = events.Event(self.runner.env)
-- 
2.43.0


From d08a6e64fe623b9fcbcca4d12894090a36f763e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 092/101] fix: the replacement of invalid actions must follow
 the seed of the environment

---
 prodsys/control/routing_control_env.py    | 2 +-
 prodsys/control/sequencing_control_env.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index c31cd05..9ea53c5 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -186,7 +186,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         self.chosen_resource = self.runner.resource_factory.resources[resource_index]
         if not self.chosen_resource.data.ID in [r.resource.data.ID for r in self.possible_requests]:
             invalid_action = True
-            self.chosen_resource = np.random.choice(self.possible_requests).resource
+            self.chosen_resource = self.possible_requests[self.np_random.integers(len(self.possible_requests))].resource
         else:
             invalid_action = False
 
diff --git a/prodsys/control/sequencing_control_env.py b/prodsys/control/sequencing_control_env.py
index 7c9955c..1f32f91 100644
--- a/prodsys/control/sequencing_control_env.py
+++ b/prodsys/control/sequencing_control_env.py
@@ -161,9 +161,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
         queue_index = np.argmax(action)
 
         if queue_index >= len(self.resource_controller.requests):
-            queue_index = np.random.choice(
-                [i for i in range(len(self.resource_controller.requests))]
-            )
+            queue_index = self.np_random.integers(len(self.resource_controller.requests))
             to_process = self.resource_controller.requests.pop(queue_index)
             invalid_action = True
         else:
-- 
2.43.0


From af0839457f63b51554df87831ecf2e0ef85f3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 093/101] fix: the agent's choice of the next batch must be
 executed

---
 prodsys/simulation/control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index ecf9b32..1de4c53 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -518,7 +518,9 @@ class BatchController(Controller):
             if self.resource.full or not self.get_next_batch():
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
-            self.control_policy(self.requests)
+            decision = self.control_policy(self.requests)
+            if decision is not None: # the decision is made after the policy returned
+                yield decision
             batch = self.get_next_batch()
             for request in batch:
                 self.requests.remove(request)
@@ -1064,6 +1066,7 @@ def agent_control_policy(
         requests (List[Request]): The list of requests.
     """
     gym_env.interrupt_simulation_event.succeed()
+    return gym_env.runner.env.timeout(0)
 
 
 from prodsys.simulation import resources, state, sink, source, route_finder, sim, store
-- 
2.43.0


From 0d36af96f9812c6ca6f9ebd7fb6918a8c8bc2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 094/101] fix: processes that have not started yet and stored
 finished products must be observable

---
 prodsys/simulation/observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index da2637f..fa274c0 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import List, TYPE_CHECKING
+from typing import List, Optional, TYPE_CHECKING
 
 from pydantic import BaseModel, ConfigDict
 
@@ -14,7 +14,7 @@ if TYPE_CHECKING:
 class ProcessObservation(BaseModel):
     process: str
     product: str
-    activity: state.StateEnum
+    activity: Optional[state.StateEnum] = None
     state: state.StateTypeEnum
 
 class QueueObservation(BaseModel):
@@ -46,7 +46,7 @@ def observe_input_queue(resource: resources.Resource, product_factory: product_f
             production_process_info = QueueObservation(
                 product=product_data.ID,
                 activity="waiting",
-                process=product.next_prodution_process.process_data.ID,
+                process=product.next_prodution_process.process_data.ID if product.next_prodution_process else "",
                 next_resource=product.current_locatable.data.ID,
                 waiting_since=product.product_info.event_time
             )
-- 
2.43.0


From f430b24fa510f992ef2ddb72d5d7a648480d4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 095/101] fix: a batch waiting for capacity must start when a
 batch releases it

---
 prodsys/simulation/control.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 1de4c53..12c6640 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -350,6 +350,7 @@ class BatchController(Controller):
     A batch controller is responsible for controlling the batch processes of a production resource. The controller is requested by products requiring processes. The controller decides has a control policy that determines with which sequence requests are processed.
     """
     resource: resources.ProductionResource = Field(init=False, default=None)
+    states_released: events.Event = Field(init=False, default=None)
 
     def get_batch_size(self, resource: resources.Resource) -> int:
         """
@@ -474,14 +475,10 @@ class BatchController(Controller):
                     free_state.reserved = True
                 return free_states
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
-            yield events.AnyOf(
-                self.env,
-                [
-                    state.process
-                    for state in resource.production_states
-                    if state.process is not None and state.process.is_alive
-                ],
-            )
+            # a batch releases its states when all its products are done, so this has to be awaited
+            if self.states_released is None or self.states_released.triggered:
+                self.states_released = events.Event(self.env)
+            yield self.states_released
 
     def control_loop(self) -> Generator:
         """
@@ -565,6 +562,8 @@ class BatchController(Controller):
             for production_state in production_states:
                 production_state.process = None
                 production_state.reserved = False
+            if self.states_released is not None and not self.states_released.triggered:
+                self.states_released.succeed()
 
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
-- 
2.43.0


From b1ed89796617a13715777f9f587138e824987a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 096/101] fix: jobs waiting during a changeover must start when
 it is finished

---
 prodsys/simulation/resources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 42a4fc1..a17caf0 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -424,6 +424,8 @@ class Resource(BaseModel, ABC, resource.Resource):
                 self.unreserve_setup()
                 if not self.setup_finished.triggered:
                     self.setup_finished.succeed()
+                if not self.controller.requested.triggered: # jobs may wait since the resource was in setup
+                    self.controller.requested.succeed()
             if self.reserved_setup:
                 # another job changes the setup, decide again when it is done
                 if self.setup_finished.triggered:
-- 
2.43.0


From ac462b7e1f2f59f2ace16bb57f95e2d2b4b44b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 097/101] fix: work done before an interruption counts for jobs
 started at time zero, too

---
 prodsys/simulation/state.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index fc70568..76c8a53 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -379,8 +379,6 @@ class ProductionState(State):
         self.finished_process.succeed()
 
     def update_done_in(self):
-        if self.start == 0:
-            return
         self.done_in -= (self.env.now - self.start)  # How much time left?
         if self.done_in < 0:
             self.done_in = 0
-- 
2.43.0


From 9236b89b8aee20a500bd974d6b9f645a039b1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 098/101] fix: a process breakdown does not drop every other
 repair time

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 76c8a53..297af6a 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -589,7 +589,7 @@ class ProcessBreakDownState(State):
             yield events.AllOf(
                 self.env, [state.active for state in self.production_states]
             )
-            debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
+            debug_logging(self, f"states are active, start deactivating and interrupting them")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
             for state in self.production_states + self.resource.setup_states:
-- 
2.43.0


From 7f94e68ef5913f886d88b996323f835a3f74abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 099/101] fix: a resource whose schedule of breakdowns has
 ended does not fail any more

---
 prodsys/simulation/state.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 297af6a..bd46d53 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -539,7 +539,11 @@ class BreakDownState(State):
             self.state_info.log_end_state(self.env.now, StateTypeEnum.breakdown)
 
     def wait_for_breakdown(self):
-        yield self.env.timeout(self.time_model.get_next_time())
+        time_between_failures = self.time_model.get_next_time()
+        if time_between_failures < 0:
+            # the schedule of the time model has ended, no further breakdown occurs
+            yield events.Event(self.env)
+        yield self.env.timeout(time_between_failures)
 
     def interrupt_process(self):
         pass
@@ -607,7 +611,11 @@ class ProcessBreakDownState(State):
                 state.activate()
 
     def wait_for_breakdown(self):
-        yield self.env.timeout(self.time_model.get_next_time())
+        time_between_failures = self.time_model.get_next_time()
+        if time_between_failures < 0:
+            # the schedule of the time model has ended, no further breakdown occurs
+            yield events.Event(self.env)
+        yield self.env.timeout(time_between_failures)
 
     def interrupt_process(self):
         pass
-- 
2.43.0


From d2bd9f882ec99c2d0f2e68eb36fc7a369ce70669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 100/101] fix: the first request of a complete batch determines
 the next batch

---
 prodsys/simulation/control.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 12c6640..345bf51 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -370,7 +370,8 @@ class BatchController(Controller):
     def get_next_batch(self) -> List[request_module.Request]:
         """
         Get the requests of the next complete batch according to the order of the requests. A batch consists of
-        requests of the same process for products of the same type.
+        requests of the same process for products of the same type. The first request that belongs to a complete
+        batch determines which batch is next.
 
         Returns:
             List[request_module.Request]: The requests of the batch, empty if there is no complete batch.
@@ -378,12 +379,12 @@ class BatchController(Controller):
         batch_size = self.get_batch_size(self.resource)
         batches: dict = {}
         for request in self.requests:
-            batch = batches.setdefault(
+            batches.setdefault(
                 (request.get_process().process_data.ID, request.get_product().product_data.product_type), []
-            )
-            batch.append(request)
-            if len(batch) == batch_size:
-                return batch
+            ).append(request)
+        for batch in batches.values():
+            if len(batch) >= batch_size:
+                return batch[:batch_size]
         return []
 
     def get_next_product_for_process(
-- 
2.43.0


From a4eccd0eddf6fe430d9c1b1093053d7cd40cf981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 101/101] fix: names in exported files that look like numbers
 or missing values are names

---
 prodsys/util/post_processing.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 51ab876..38f704f 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -55,7 +55,23 @@ class PostProcessor:
         """
         if filepath_input:
             self.filepath = filepath_input
-        self.df_raw = pd.read_csv(self.filepath, float_precision="round_trip")
+        # names are text, also if they look like numbers or missing values
+        self.df_raw = pd.read_csv(
+            self.filepath,
+            float_precision="round_trip",
+            dtype={
+                column: str
+                for column in [
+                    "Resource",
+                    "State",
+                    "Product",
+                    "Origin location",
+                    "Target location",
+                ]
+            },
+            keep_default_na=False,
+            na_values=[""],
+        )
         self.df_raw.drop(columns=["Unnamed: 0"], inplace=True)
 
     def get_conditions_for_interface_state(self, df: pd.DataFrame) -> pd.DataFrame:
-- 
2.43.0

