From 2cde4c8bd5350b35708f713fa460feaa077c9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 01/47] fix: keep pending hook calls on the event loop so an
 aborted run cannot poison later runs

---
 toffee/executor.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..2bff678 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -1,5 +1,7 @@
 __all__ = ["Executor"]
 
+import asyncio
+
 from .asynchronous import add_callback
 from .asynchronous import create_task
 from .asynchronous import Event
@@ -11,7 +13,17 @@ from ._base import MObject
 Priority Task Execution
 """
 
-__priority_tasks = []
+
+def __get_priority_tasks():
+    """
+    Get the priority task list of the current event loop. The list belongs to the event loop, so tasks left pending by
+    an aborted run will not be executed in the following runs.
+    """
+
+    loop = asyncio.get_event_loop()
+    if not hasattr(loop, "priority_tasks"):
+        loop.priority_tasks = []
+    return loop.priority_tasks
 
 
 def add_priority_task(coro, priority, done_event=None):
@@ -19,7 +31,7 @@ def add_priority_task(coro, priority, done_event=None):
     Add a priority task to the priority task list.
     """
 
-    __priority_tasks.append((coro, priority, done_event))
+    __get_priority_tasks().append((coro, priority, done_event))
 
 
 async def __execute_priority_tasks():
@@ -28,13 +40,14 @@ async def __execute_priority_tasks():
     """
 
     set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    priority_tasks = __get_priority_tasks()
+    for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
             set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
+    priority_tasks.clear()
     return set_event
 
 
-- 
2.43.0


From 3510e9fcadb4ff71529f0ce12f934b5ddf80643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 02/47] fix: settle the cycle again after hooks without a
 waiter (monitor hooks) were executed

---
 toffee/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 2bff678..ad2dc86 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -39,16 +39,16 @@ async def __execute_priority_tasks():
     Execute the priority tasks in the priority task list. It will be called every clock cycle.
     """
 
-    set_event = False
     priority_tasks = __get_priority_tasks()
+    has_executed = len(priority_tasks) > 0
     for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
-            set_event = True
             done_event.set()
 
+    # Any executed task may have made other coroutines runnable, so they need to be settled again
     priority_tasks.clear()
-    return set_event
+    return has_executed
 
 
 add_callback(__execute_priority_tasks)
-- 
2.43.0


From 09d80dc57e377d21be396a1080614530d88f4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 03/47] fix: a task whose wait was cancelled is still runnable
 in the current cycle

---
 toffee/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..87d4712 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -62,7 +62,7 @@ def __has_unwait_task():
         if task.get_name() == "__clock_loop":
             continue
 
-        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
+        if task._fut_waiter is None or task._fut_waiter.done():
             return True
 
     return False
-- 
2.43.0


From ce107531684561731aa4d01ba3d16ef1ecbd9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 04/47] fix: sample delayers exactly once per cycle even when
 hooks make the cycle settle again

---
 toffee/asynchronous.py | 22 ++++++++++++++++++++++
 toffee/delay.py        |  5 ++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 87d4712..74e3d2b 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -33,6 +33,26 @@ def add_callback(coro, *args, **kwargs):
     callback_list.append((coro, args, kwargs))
 
 
+cycle_end_callback_list = []
+
+
+def add_cycle_end_callback(coro, *args, **kwargs):
+    """
+    Add a callback function that is executed exactly once per cycle, after everything in the cycle has settled.
+    """
+
+    cycle_end_callback_list.append((coro, args, kwargs))
+
+
+async def __execute_cycle_end_callback():
+    """
+    Execute the cycle end callback function.
+    """
+
+    for func, args, kwargs in cycle_end_callback_list:
+        await func(*args, **kwargs)
+
+
 async def __execute_callback():
     """
     Execute the callback function. The Callback will be executed between the next clock time after other_task_done.
@@ -106,6 +126,8 @@ async def execute_all_coros():
         if not (await __execute_callback()):
             break
 
+    await __execute_cycle_end_callback()
+
     if asyncio.get_event_loop().test_done:
         await cancel_all_tasks()
         await asyncio.sleep(0)
diff --git a/toffee/delay.py b/toffee/delay.py
index efdf27d..859fea9 100644
--- a/toffee/delay.py
+++ b/toffee/delay.py
@@ -1,17 +1,16 @@
 __all__ = ["Delayer"]
 
 import asyncio
-from .asynchronous import add_callback
+from .asynchronous import add_cycle_end_callback
 from ._base import MObject
 
 
 async def __process_delayer():
     for delayer in asyncio.get_event_loop().delayer_list:
         delayer.sample()
-    return False
 
 
-add_callback(__process_delayer)
+add_cycle_end_callback(__process_delayer)
 
 
 class Delayer(MObject):
-- 
2.43.0


From d0193ce5218737e829486ea1ebe8b8554b001c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 05/47] fix: priority and sche_order given for one driver call
 apply to exactly that call

---
 toffee/_base_agent.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..2bc79d2 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -65,7 +65,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -74,15 +74,14 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        if priority is None:
+            priority = driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -96,9 +95,8 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        if priority is None:
+            priority = agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -115,6 +113,11 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # The override of the priority and the sche_order is only valid for this call
+
+        priority, self.priority = self.priority, None
+        sche_order, self.sche_order = self.sche_order, None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -130,11 +133,11 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -143,11 +146,11 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -165,13 +168,13 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -186,9 +189,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From 8499bebd842b957e84a1066455724c98eaaa3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 06/47] fix: make unattach, re-attach and attach after an
 earlier attach of the same model class work

---
 toffee/env.py   | 16 +++++++++++-----
 toffee/model.py |  8 ++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..4487163 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -42,6 +42,7 @@ class Env(MObject):
 
         assert isinstance(model, Model), f"Model {model} is not an instance of Model"
         model.collect_all()
+        model.clear_matched()
 
         if model.is_attached():
             warning(
@@ -50,8 +51,13 @@ class Env(MObject):
             model.attached_env.unattach(model)
 
         self.__inject_all(model)
-        self.__ensure_model_match(model)
+        try:
+            self.__ensure_model_match(model)
+        except ValueError:
+            self.__uninject_all(model)
+            raise
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +72,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
@@ -235,11 +241,11 @@ class Env(MObject):
 
             for driver_method in agent.all_driver_method():
                 driver = self.__get_driver(agent_name, driver_method.__name__)
-                driver.model_infos.pop(model)
+                driver.model_infos.pop(model, None)
 
             for monitor_method in agent.all_monitor_method():
                 monitor = self.__get_monitor(agent_name, monitor_method.__name__)
-                monitor.model_infos.pop(model)
+                monitor.model_infos.pop(model, None)
 
     def __ensure_model_match(self, model: Model):
         """
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From 727cfcc32348cc834d36634f4a9125795cac50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 07/47] fix: accept agent ports with agents, methods or their
 own name, and methods of an already listed agent

---
 toffee/env.py   | 44 +++++++++++++++++++++-----------------------
 toffee/model.py |  6 +++++-
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4487163..123840f 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -119,37 +119,33 @@ class Env(MObject):
     def __is_agent_hook_contain_method(
         agent_hook, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contained = (
             agent_name_of_method == agent_hook.__agent_name__
             or agent_name_of_method in agent_hook.__agents__
-        ):
+        )
+        for idx, method_path in enumerate(agent_hook.__methods__):
+            if method_path == f"{agent_name_of_method}.{method_name}":
+                agent_hook.__methods_matched__[idx] = True
+                contained = True
+        if contained:
             agent_hook.__matched__[0] = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
-            agent_hook.__matched__[0] = True
-            agent_hook.__methods_matched__[
-                agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contained
 
     @staticmethod
     def __is_agent_port_contain_method(
         agent_port, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contained = (
             agent_name_of_method == agent_port.get_path()
             or agent_name_of_method in agent_port.agents
-        ):
-            agent_port.matched = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_port.methods:
+        )
+        for idx, method_path in enumerate(agent_port.methods):
+            if method_path == f"{agent_name_of_method}.{method_name}":
+                agent_port.methods_matched[idx] = True
+                contained = True
+        if contained:
             agent_port.matched = True
-            agent_port.methods_matched[
-                agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contained
 
     @staticmethod
     def __all_agent_hooks_contain_method(
@@ -277,11 +273,13 @@ class Env(MObject):
             for agent in agent_port.agents:
                 if not hasattr(self, agent):
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            if not agent_port.get_path() == "" and not hasattr(
+                self, agent_port.get_path()
+            ):
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..bab03ba 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,11 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        """Get the agent name. The name of the port is only used when nothing else is specified."""
+
+        if self.agent_name == "" and self.agents == [] and self.methods == []:
+            return self.name
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From ddaa6c3c36b4af751025122bafad111e68e42c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 08/47] fix: give every bundle instance its own bundles in
 bundle lists

---
 toffee/bundle.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..ea2651b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -150,7 +150,9 @@ class BundleList:
         bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = [
+            bundle._Bundle__recreate() for bundle in old_bundle_list.bundles
+        ]
         return bundle_list
 
 
@@ -407,10 +409,7 @@ class Bundle(MObject):
 
         # Recreate subbundles and signal lists for each instance
         for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
-            new_sub_bundle = sub_bundle.__class__()
-            new_sub_bundle.current_level_signals = sub_bundle.current_level_signals
-            new_sub_bundle.__connect_method = sub_bundle.__connect_method
-            setattr(self, sub_bundle_name, new_sub_bundle)
+            setattr(self, sub_bundle_name, sub_bundle.__recreate())
 
         # Recreate signal lists for each instance
         for signal_list_name, signal_list in self.__all_signal_lists():
@@ -422,6 +421,19 @@ class Bundle(MObject):
             new_bundle_list = BundleList.from_bundlelist(bundle_list)
             setattr(self, bundle_list_name, new_bundle_list)
 
+    def __recreate(self):
+        """
+        Create a new unbound bundle with the same signals and connect method.
+
+        Returns:
+            A new bundle.
+        """
+
+        new_bundle = self.__class__()
+        new_bundle.current_level_signals = self.current_level_signals
+        new_bundle.__connect_method = self.__connect_method
+        return new_bundle
+
     def ___dut_call_on_rise__(self, cycle):
         """
         Call the on rise method of target DUT.
-- 
2.43.0


From fad6a767055f6e5ad74682209af3d6e410827155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 09/47] fix: let a bundle step when only its bundle lists have
 connected signals

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index ea2651b..eaf5b23 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1409,6 +1409,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From a8811060084eb4e5319615e43a3a009c1e78a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 10/47] fix: rebinding disconnects signal lists and bundle
 lists and follows the new clock

---
 toffee/bundle.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index eaf5b23..ba1242e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1294,23 +1294,45 @@ class Bundle(MObject):
             signal_name: The name of the signal to remove.
         """
 
-        signal = getattr(self, signal_name)
+        self.__disconnect_signal(getattr(self, signal_name))
+        delattr(self, signal_name)
+
+    @staticmethod
+    def __disconnect_signal(signal):
+        """
+        Update the signal info when a signal is disconnected from the bundle.
+
+        Args:
+            signal: The signal to disconnect.
+        """
+
+        if not Bundle.__is_instance_of_xpin(signal):
+            return
+
         if hasattr(signal.xdata, "number_of_bundles_connected_to"):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
         Unbind all signals to the bundle.
         """
 
+        self.__clock_event = None
+
         for signal_name in self.current_level_signals:
-            if hasattr(self, signal_name):
+            if signal_name in self.__dict__:
                 self.__remove_signal_attr(signal_name)
+        for _, signal_list in self.__all_signal_lists():
+            for signal in signal_list.signals:
+                Bundle.__disconnect_signal(signal)
+            signal_list.signals = [Signal() for _ in signal_list.signals]
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From 09ee3cda373a12ed7b736a159fa93ff26cc2e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 11/47] fix: after a rebind, requests respond once per cycle of
 the new dut only

---
 toffee/bundle.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index ba1242e..b02518e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -403,6 +403,7 @@ class Bundle(MObject):
         self.__connect_method = PrefixBindMethod("")
         self.__dut_requests__ = Queue()
         self.__dut_instance__ = None
+        self.__registered_duts__ = []
         self.__blocked_request__ = None
 
         self.__set_current_level_signal()
@@ -511,9 +512,17 @@ class Bundle(MObject):
         """
         if self.__dut_instance__ is not None:
             error("The dut instance is already set")
-        dut.StepRis(self.___dut_call_on_rise__)
         self.__dut_instance__ = dut
 
+        # A callback can't be removed from a dut, so it only responds to the dut currently in use
+        def on_rise(cycle):
+            if self.__dut_instance__ is dut:
+                self.___dut_call_on_rise__(cycle)
+
+        if not any(registered_dut is dut for registered_dut in self.__registered_duts__):
+            dut.StepRis(on_rise)
+            self.__registered_duts__.append(dut)
+
     def process_requests(self, request: Optional[Union[Dict, List[Dict]]]):
         """
         Process the requests.
@@ -705,6 +714,7 @@ class Bundle(MObject):
         if self.bound:
             warning("bundle is already bound, the previous bind will be overwritten")
             self.__unbind_all()
+            self.__dut_instance__ = None
         else:
             # When first bind, set all sub-bundles' name
             for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
-- 
2.43.0


From a7ae03e2dc2c6c3449b12fe07df3308cb055eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 12/47] fix: assign does not remove the wildcard from the
 caller's dictionary

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b02518e..4c388a7 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -863,7 +863,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {signal: value for signal, value in item.items() if signal != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From 1b0c1b7038384bebff43f0ae3afef65a07040888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 13/47] fix: a flat assign accepts the bundle list keys
 produced by a flat as_dict

---
 toffee/bundle.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 4c388a7..ee53d4d 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -916,6 +916,18 @@ class Bundle(MObject):
                                 level_string, sub_bundle_name
                             ),
                         )
+                    elif (
+                        sub_bundle_name is not None
+                        and (bundle := self.__get_bundle_in_lists(sub_bundle_name))
+                        is not None
+                    ):
+                        bundle.assign(
+                            {sub_bundle_signal: value},
+                            multilevel,
+                            Bundle.__appended_level_string(
+                                level_string, sub_bundle_name
+                            ),
+                        )
                     elif any(
                         bundle_list[0] == signal
                         for bundle_list in self.__all_bundle_lists()
@@ -1254,6 +1266,23 @@ class Bundle(MObject):
             if isinstance(getattr(self, attr), BundleList):
                 yield (attr, getattr(self, attr))
 
+    def __get_bundle_in_lists(self, name):
+        """
+        Get the bundle in the bundle lists by its name.
+
+        Args:
+            name: The name of the bundle, format such as "bundle_list[0]".
+
+        Returns:
+            The bundle if it is found in the bundle lists, None otherwise.
+        """
+
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            for idx, bundle in enumerate(bundle_list.bundles):
+                if name == f"{bundle_list_name}[{idx}]":
+                    return bundle
+        return None
+
     def __detect_missing_signals(
         self, connected_signals, level_string, rule_stack, unconnected_signal_access
     ):
-- 
2.43.0


From cacbd581e1c41b2273f4996c365f0d8b368df50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 14/47] fix: process_requests waits until a blocked last
 request has been applied

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index ee53d4d..4197539 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -547,7 +547,9 @@ class Bundle(MObject):
             request = [request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
+        while (
+            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
+        ):
             self.__dut_instance__.Step(1)
         ret = []
         for req in request:
-- 
2.43.0


From 014e62dc83808dedc90e6ad68d1e6e44a46aa7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 15/47] fix: detect_specific_connectivity checks the specific
 signal for every connect method

---
 toffee/bundle.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 4197539..fc06f2c 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -234,7 +234,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -248,7 +248,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -1268,6 +1268,23 @@ class Bundle(MObject):
             if isinstance(getattr(self, attr), BundleList):
                 yield (attr, getattr(self, attr))
 
+    def __get_signal_path(self, signal_name):
+        """
+        Get the path of a signal in the current level, it is different from the signal name for signals in signal lists.
+
+        Args:
+            signal_name: The name of the signal.
+
+        Returns:
+            The path of the signal.
+        """
+
+        if signal_name not in self.current_level_signals:
+            for signal_list_name, signal_list in self.__all_signal_lists():
+                if signal_name in signal_list.names:
+                    return f"{signal_list_name}[{signal_list.names.index(signal_name)}]"
+        return signal_name
+
     def __get_bundle_in_lists(self, name):
         """
         Get the bundle in the bundle lists by its name.
@@ -1418,16 +1435,15 @@ class Bundle(MObject):
                 error("specific signal could only be used in detection mode")
         else:
             if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
-                    full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
+                # There is only one signal to detect, it is not matched if it is connected to any other signal
+                if any(
+                    Bundle.__appended_level_string(
+                        level_string, self.__get_signal_path(signal_name)
                     )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
+                    != specific_signal
+                    for signal_name in connected_signals
+                ):
+                    remain_signals = all_signals
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
-- 
2.43.0


From a020123d2be9e9d224dfcaed69fe636da0643138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 16/47] fix: all_signals_rule reports the dut signal of
 dictionary rules at every level

---
 toffee/bundle.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index fc06f2c..2f5b9af 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1285,6 +1285,26 @@ class Bundle(MObject):
                     return f"{signal_list_name}[{signal_list.names.index(signal_name)}]"
         return signal_name
 
+    def __get_sub_bundle_path(self, bundle):
+        """
+        Get the path of a sub-bundle or a bundle in bundle lists in the current level.
+
+        Args:
+            bundle: The bundle to get the path.
+
+        Returns:
+            The path of the bundle.
+        """
+
+        for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
+            if sub_bundle is bundle:
+                return sub_bundle_name
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            for idx, list_bundle in enumerate(bundle_list.bundles):
+                if list_bundle is bundle:
+                    return f"{bundle_list_name}[{idx}]"
+        return bundle.name
+
     def __get_bundle_in_lists(self, name):
         """
         Get the bundle in the bundle lists by its name.
@@ -1707,7 +1727,7 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            if self.detect_specific_connectivity(value, could_connected_to):
                 filtered_dict[key] = value
         return filtered_dict
 
@@ -1725,10 +1745,10 @@ class Bundle(MObject):
         if signal != "":
             rule_stack = rule_stack + [signal]
 
-        for rule in rule_stack[1:]:
+        for parent, rule in zip(rule_stack[:-1], rule_stack[1:]):
             if rule is rule_stack[-1]:
-                path += rule
+                path += parent.__get_signal_path(rule)
             else:
-                path += rule.name + "."
+                path += parent.__get_sub_bundle_path(rule) + "."
 
         return path
-- 
2.43.0


From 20f2b522e7b70ed110cef4cf62885223a0484f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 17/47] fix: CovGroup.stop_sample is a method again instead of
 being hidden by its flag

---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..f142b4c 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self.is_sample_stopped = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self.is_sample_stopped:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self.is_sample_stopped:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self.is_sample_stopped = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self.is_sample_stopped = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self.is_sample_stopped
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From 95cebd4e6cc5082bb3049d61c013412622d4401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 18/47] fix: export the coverage of a group as is_all_covered
 reports it, and allow unnamed points with a single condition

---
 toffee/funcov.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index f142b4c..7cba255 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -273,15 +273,15 @@ class CovGroup(object):
         @param bins: a dict of CovCondition objects, a single CovCondition object or a Callable object (its params is call(target) -> bool).
         @param name: the name of the point
         """
+        if not isinstance(bins, dict):
+            if not callable(bins):
+                raise ValueError("Invalid value %s for key %s" % (bins, name))
+            bins = {"anonymous": bins}
         key = name
         if not key:
             key = "%s:%s" % (target, bins.keys())
         if key in self.cov_points:
             raise ValueError("Duplicated key %s" % key)
-        if not isinstance(bins, dict):
-            if not callable(bins):
-                raise ValueError("Invalid value %s for key %s" % (bins, key))
-            bins = {"anonymous": bins}
         for k, v in bins.items():
             if not isinstance(v, (list, tuple)):
                 if not callable(v):
@@ -551,7 +551,7 @@ class CovGroup(object):
             for k, v in self.cov_points.items()
         ]
         ret["name"] = self.name
-        ret["hinted"] = self.hinted
+        ret["hinted"] = self.is_all_covered()
         ret["bin_num_total"] = bins_total
         ret["bin_num_hints"] = bins_hints
         ret["point_num_total"] = points_total
-- 
2.43.0


From 06f50d861c6855506a078658a01754d6b6b6bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 19/47] fix: PLRU never selects a way that does not exist

---
 toffee/utils/plru.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toffee/utils/plru.py b/toffee/utils/plru.py
index 2c1b3df..3dd8480 100644
--- a/toffee/utils/plru.py
+++ b/toffee/utils/plru.py
@@ -20,5 +20,10 @@ class PLRU:
     def get(self):
         pos = 0
         for i in range(self.bits_layer_num):
-            pos = pos * 2 + self.bits[i][pos]
+            bit = self.bits[i][pos]
+            # If the number of ways is not a power of 2, there may be no way in the right subtree
+            right_first_way = (pos * 2 + 1) << (self.bits_layer_num - i - 1)
+            if right_first_way >= self.ways_num:
+                bit = 0
+            pos = pos * 2 + bit
         return pos
-- 
2.43.0


From 6b5b457ece735a325edd5a2b4280f351d2cd61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 20/47] fix: show the id of a log record identically in every
 output

---
 toffee/logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..109e235 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 __all__ = [
@@ -60,6 +61,9 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
+        # The record is shared by all handlers, it should not be modified
+        record = copy.copy(record)
+
         if not hasattr(record, "log_id") or record.log_id == "":
             record.log_id = ""
         else:
-- 
2.43.0


From 78f499e54a39159dbfec604b4d51dd75f56836b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 21/47] fix: an exception raised by a monitor method fails the
 run

---
 toffee/_base_agent.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 2bc79d2..3662117 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -206,6 +206,22 @@ class Monitor(BaseAgent):
         self.agent = agent
 
         self.monitor_task = create_task(self.__monitor_forever())
+        self.monitor_task.add_done_callback(self.__report_exception)
+
+    @staticmethod
+    def __report_exception(task):
+        """
+        Report the exception of the monitor task, nobody awaits the task so the exception will be lost otherwise.
+        """
+
+        if not task.cancelled() and task.exception() is not None:
+            task.get_loop().call_exception_handler(
+                {
+                    "message": "Exception in monitor method",
+                    "exception": task.exception(),
+                    "task": task,
+                }
+            )
 
     def enable_get_queue(self, maxsize):
         self.get_queue = Queue()
-- 
2.43.0


From 9da46830b6152dddce0d03d6cb4d168c79b3a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 22/47] fix: an exit-any Executor block raises instead of
 waiting forever when a call raises

---
 toffee/executor.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index ad2dc86..aaa90e1 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -160,6 +160,11 @@ class Executor(MObject):
             )
         await self.__exit_any_event.wait()
 
+        # A group that ends with an exception fails the block
+        for task in self.__uncompleted:
+            if task.done():
+                task.result()
+
     async def wait_all(self):
         """
         Wait for all the coroutines to complete. This function should be called after execute.
@@ -238,23 +243,24 @@ class Executor(MObject):
         """
 
         results = []
-        for coro, sche_order, priority in tasks:
-            driver = Executor.__get_driver(coro)
-
-            if driver is not None:
-                driver.priority = None
-                driver.sche_order = None
+        try:
+            for coro, sche_order, priority in tasks:
+                driver = Executor.__get_driver(coro)
 
-                if priority is not None:
-                    driver.priority = priority
+                if driver is not None:
+                    driver.priority = None
+                    driver.sche_order = None
 
-                if sche_order is not None:
-                    driver.sche_order = sche_order
+                    if priority is not None:
+                        driver.priority = priority
 
-            results.append(await coro)
+                    if sche_order is not None:
+                        driver.sche_order = sche_order
 
-        if complete_event is not None and not complete_event.is_set():
-            complete_event.set()
+                results.append(await coro)
+        finally:
+            if complete_event is not None and not complete_event.is_set():
+                complete_event.set()
 
         return results
 
-- 
2.43.0


From 9a16997e276e1b02533a1d5c519f5bb51af4b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 23/47] fix: a driver method may be called with a keyword
 argument named agent

---
 toffee/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/agent.py b/toffee/agent.py
index b686d8a..0509e4a 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -127,7 +127,7 @@ def __driver_wrapped_func(func):
     func.__is_driver_decorated__ = True
 
     @functools.wraps(func)
-    async def wrapper(agent, *args, **kwargs):
+    async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
         return await driver.process_driver_call(agent, args, kwargs)
 
-- 
2.43.0


From fca5026c2615bcf1fd0cb95e3f5e30ae611e878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 24/47] fix: an exception of a model's main, a comparison or a
 hook fails the run even if the task is referenced or cancelled at the end

---
 toffee/_base_agent.py  | 20 +++-----------------
 toffee/asynchronous.py | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 3662117..a7010ed 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -8,6 +8,7 @@ from .asynchronous import create_task
 from .asynchronous import Event
 from .asynchronous import Queue
 from .asynchronous import gather
+from .asynchronous import report_exception
 from ._compare import compare_once
 from .executor import add_priority_task
 from .logger import error
@@ -189,7 +190,7 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-        create_task(background_exec())
+        create_task(background_exec()).add_done_callback(report_exception)
 
         return dut_result
 
@@ -206,22 +207,7 @@ class Monitor(BaseAgent):
         self.agent = agent
 
         self.monitor_task = create_task(self.__monitor_forever())
-        self.monitor_task.add_done_callback(self.__report_exception)
-
-    @staticmethod
-    def __report_exception(task):
-        """
-        Report the exception of the monitor task, nobody awaits the task so the exception will be lost otherwise.
-        """
-
-        if not task.cancelled() and task.exception() is not None:
-            task.get_loop().call_exception_handler(
-                {
-                    "message": "Exception in monitor method",
-                    "exception": task.exception(),
-                    "task": task,
-                }
-            )
+        self.monitor_task.add_done_callback(report_exception)
 
     def enable_get_queue(self, maxsize):
         self.get_queue = Queue()
diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 74e3d2b..204c5b3 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -199,6 +199,22 @@ async def __clock_loop(dut):
 create_task = asyncio.create_task
 
 
+def report_exception(task):
+    """
+    Report the exception of a task that nobody awaits to the exception handler of the event loop as soon as the task is
+    done, whether or not somebody still holds a reference to the task and even if it was raised on cancellation.
+    """
+
+    if not task.cancelled() and task.exception() is not None:
+        task.get_loop().call_exception_handler(
+            {
+                "message": "Exception in a task of the environment",
+                "exception": task.exception(),
+                "task": task,
+            }
+        )
+
+
 def start_clock(dut):
     """
     Start a clock loop on a DUT.
@@ -209,6 +225,7 @@ def start_clock(dut):
 
     task = create_task(__clock_loop(dut))
     task.set_name("__clock_loop")
+    task.add_done_callback(report_exception)
 
 
 def set_clock_event(dut, loop):
@@ -343,7 +360,7 @@ class Component(MObject):
     """
 
     def __init__(self):
-        create_task(self.__main_wrapper())
+        create_task(self.__main_wrapper()).add_done_callback(report_exception)
 
     async def __main_wrapper(self):
         """Make sure the main function is executed after test start"""
-- 
2.43.0


From 1dd99f500d69694bad3971b9eca9416d4105bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 25/47] fix: attach rejects models whose agent hooks or ports
 name an attribute of the env that is not an agent

---
 toffee/env.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 123840f..3d7123a 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -255,15 +255,17 @@ class Env(MObject):
         """
 
         model.ensure_all_matched()
+        agent_names = set(self.all_agent_names())
 
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in agent_names
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -271,12 +273,13 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.get_path() == "" and not hasattr(
-                self, agent_port.get_path()
+            if (
+                not agent_port.get_path() == ""
+                and agent_port.get_path() not in agent_names
             ):
                 raise ValueError(
                     f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
-- 
2.43.0


From 74c1488f4e41ee29d763481ce73576db22b0ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 26/47] fix: process_requests leaves the caller's requests
 unchanged, so they can be used again

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 2f5b9af..f029aa9 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -545,6 +545,8 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        # The caller's requests may be used again, so the results are kept in copies
+        request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
         while (
-- 
2.43.0


From af981f7557de59031fa5a2116a1ebdb66cb0878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 27/47] fix: setup_logging uses the given format

---
 toffee/logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 109e235..33532b9 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -138,15 +138,17 @@ def setup_logging(
 
     toffee_logger.addHandler(stats_handler)
 
+    formatter = ToffeeFormatter(format)
+
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From 32fe78a6b9150159a9c21e3b7fa3dfc0d566cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 28/47] fix: generated bundle code declares signals whose names
 can't be assigned in a class body, and quotes any regex

---
 scripts/bundle_code_gen.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/scripts/bundle_code_gen.py b/scripts/bundle_code_gen.py
index 66b24fe..a4d0b8f 100644
--- a/scripts/bundle_code_gen.py
+++ b/scripts/bundle_code_gen.py
@@ -1,3 +1,4 @@
+import keyword
 import re
 
 from toffee import Bundle
@@ -16,6 +17,15 @@ def __gen_bundle_code(bundle_name: str, signals, max_width: int):
         The bundle code.
     """
 
+    # Names that can't be assigned in a class body are declared by the signals list of the bundle
+    listed_signals = [
+        signal
+        for signal in signals
+        if not signal.isidentifier()
+        or keyword.iskeyword(signal)
+        or signal.startswith("__")
+    ]
+    signals = [signal for signal in signals if signal not in listed_signals]
     signals_num = len(signals)
 
     if signals_num == 0:
@@ -24,6 +34,11 @@ def __gen_bundle_code(bundle_name: str, signals, max_width: int):
         end_code = f" = Signals({signals_num})"
 
     code = f"from toffee import Bundle\nfrom toffee import Signals, Signal\n\nclass {bundle_name}(Bundle):\n"
+    if listed_signals:
+        code += "\tsignals = [\n"
+        code += "".join(f"\t\t{signal!r},\n" for signal in listed_signals)
+        code += "\t]\n"
+
     code_line = "\t"
     index = 0
 
@@ -123,7 +138,7 @@ def gen_bundle_code_from_regex(bundle_name: str, dut, regex: str, max_width: int
 
     code = __gen_bundle_code(bundle_name, signals, max_width)
     code += "\n"
-    code += f'bundle = {bundle_name}.from_regex(r"{regex}")\n'
+    code += f'bundle = {bundle_name}.from_regex({regex!r})\n'
 
     return code
 
-- 
2.43.0


From 4b2ce4d6c41598f559275f0b3c415b05a1538b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 29/47] fix: requests of an aborted process_requests call are
 not left to later calls

---
 toffee/bundle.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index f029aa9..f67f2fd 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -549,10 +549,17 @@ class Bundle(MObject):
         request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
-        while (
-            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
-        ):
-            self.__dut_instance__.Step(1)
+        try:
+            while (
+                not self.__dut_requests__.empty()
+                or self.__blocked_request__ is not None
+            ):
+                self.__dut_instance__.Step(1)
+        except BaseException:
+            # Requests of an aborted call must not be left to later ones
+            self.__dut_requests__ = Queue()
+            self.__blocked_request__ = None
+            raise
         ret = []
         for req in request:
             if isinstance(req, dict) and "__return_values__" in req:
-- 
2.43.0


From b143060adab9172fe1e366b544684df2f87645e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 30/47] fix: hierarchical bundle generator keeps the pins of
 deeper levels below a node that is a pin itself

---
 scripts/bundle_code_intel_gen.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index c4d2950..d3cb2d5 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -70,7 +70,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                 # else:
                 # logs[son_hash] = (False, inside_hash, son_name, whole_name, grandsons)
             if inside_hash not in insides.keys():
-                insides[inside_hash] = [son_leaf, [], "", []]
+                insides[inside_hash] = [son_leaf, [], "", [], []]
                 if son_leaf & 2:
                     # new bundle appears
                     insides[inside_hash][2] = bundle_names_counter[0]
@@ -99,6 +99,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                             if prefix != "":
                                 name = f"_{name}"
                             insides[inside_hash][3].append(f"{name}")
+                            insides[inside_hash][4].append(f"{name}")
 
                     for bundle_hash in son_bundles.keys():
                         bundle_cls = bundle_names_counter[1][insides[bundle_hash][2]]
@@ -106,15 +107,17 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                             tprefix_name = prefix_name
                             if len(prefix) > 0:
                                 tprefix_name = f"_{tprefix_name}"
-                            if boths[prefix_name]:
-                                son_leaves = insides[bundle_hash][3]
-                                for _son_leaf in son_leaves:
-                                    leaf_name = f"{tprefix_name}{_son_leaf}"
+                            # the names of all leaves below, in bundles of any depth
+                            for _son_leaf in insides[bundle_hash][4]:
+                                leaf_name = f"{tprefix_name}{_son_leaf}"
+                                insides[inside_hash][4].append(leaf_name)
+                                if boths[prefix_name]:
                                     insides[inside_hash][3].append(leaf_name)
-                            else:
-                                rp.print(
-                                    f'\t{tprefix_name} = {bundle_cls}.from_prefix("{tprefix_name}")'
-                                )
+                            if boths[prefix_name]:
+                                continue
+                            rp.print(
+                                f'\t{tprefix_name} = {bundle_cls}.from_prefix("{tprefix_name}")'
+                            )
 
                     if len(insides[inside_hash][3]) > 0:
                         leaves_str = ", ".join(insides[inside_hash][3])
-- 
2.43.0


From 26820fe0fc6a58a96f28b4e3b5d7fda138301626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 31/47] fix: driver methods may call their instance something
 other than self

---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index a7010ed..32cd650 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -52,7 +52,7 @@ class Driver(BaseAgent):
         bound_args = signature.bind(None, *arg_list, **kwarg_list)
         bound_args.apply_defaults()
         arguments = bound_args.arguments
-        del arguments["self"]
+        del arguments[next(iter(arguments))]  # the instance, whatever the method calls it
         return arguments
 
     async def __drive_single_model_ports(self, model_info, arg_list, kwarg_list):
-- 
2.43.0


From b52736e19568343fd7af6a9700eeea0719ba8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 32/47] fix: ClockCycles on a bundle that has a signal named
 event

---
 toffee/triggers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toffee/triggers.py b/toffee/triggers.py
index dd93e99..a1f5300 100644
--- a/toffee/triggers.py
+++ b/toffee/triggers.py
@@ -20,15 +20,15 @@ async def ClockCycles(item, ncycles=1):
         ncycles: The number of clock cycles to be waited for.
     """
 
+    # item is Bundle, it may have a signal named event
+    if isinstance(item, Bundle):
+        await item.step(ncycles)
+
     # item is xpin
-    if hasattr(item, "event"):
+    elif hasattr(item, "event"):
         for _ in range(ncycles):
             await item.event.wait()
 
-    # item is Bundle
-    elif isinstance(item, Bundle):
-        await item.step(ncycles)
-
     # item is dut
     else:
         for _ in range(ncycles):
-- 
2.43.0


From 6333ea49b36b2a4701226761a2ca68a876cacf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 33/47] fix: bundle classes may have properties

---
 toffee/bundle.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index f67f2fd..aa09e75 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1116,6 +1116,16 @@ class Bundle(MObject):
             setattr(bundle, signal, xport[signal])
         return bundle
 
+    def __get_member(self, name):
+        """
+        Get an attribute of the bundle or of its class without evaluating properties, which may use signals that are not
+        connected yet.
+        """
+
+        if name in self.__dict__:
+            return self.__dict__[name]
+        return getattr(type(self), name, None)
+
     def __set_current_level_signal(self):
         """
         Collect all signals in the current level and save them in the current_level_signals.
@@ -1124,7 +1134,7 @@ class Bundle(MObject):
         self.current_level_signals = [signal for signal in self.signals]
 
         for signal in dir(self):
-            if isinstance(getattr(self, signal), Signal):
+            if isinstance(self.__get_member(signal), Signal):
                 self.current_level_signals.append(signal)
 
     def all_signals(self, level_string=""):
@@ -1248,8 +1258,8 @@ class Bundle(MObject):
         """
 
         for attr in dir(self):
-            if isinstance(getattr(self, attr), Bundle):
-                yield (attr, getattr(self, attr))
+            if isinstance(self.__get_member(attr), Bundle):
+                yield (attr, self.__get_member(attr))
 
     def __all_signal_lists(self):
         """
@@ -1261,8 +1271,8 @@ class Bundle(MObject):
         """
 
         for attr in dir(self):
-            if isinstance(getattr(self, attr), SignalList):
-                yield (attr, getattr(self, attr))
+            if isinstance(self.__get_member(attr), SignalList):
+                yield (attr, self.__get_member(attr))
 
     def __all_bundle_lists(self):
         """
@@ -1274,8 +1284,8 @@ class Bundle(MObject):
         """
 
         for attr in dir(self):
-            if isinstance(getattr(self, attr), BundleList):
-                yield (attr, getattr(self, attr))
+            if isinstance(self.__get_member(attr), BundleList):
+                yield (attr, self.__get_member(attr))
 
     def __get_signal_path(self, signal_name):
         """
-- 
2.43.0


From 7da204c085ba7b62b32c2d10c52c351b414ba979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 34/47] fix: a write mode set on a sub-bundle before bind was
 lost

---
 toffee/bundle.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index aa09e75..0b9d16f 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -433,6 +433,8 @@ class Bundle(MObject):
         new_bundle = self.__class__()
         new_bundle.current_level_signals = self.current_level_signals
         new_bundle.__connect_method = self.__connect_method
+        if self.write_mode is not None:
+            new_bundle.__replace_write_mode(self.write_mode)
         return new_bundle
 
     def ___dut_call_on_rise__(self, cycle):
@@ -641,11 +643,39 @@ class Bundle(MObject):
             The bundle itself.
         """
 
-        self.write_mode = write_mode
+        self.__replace_write_mode(write_mode)
         self.__set_all_signals_write_mode(write_mode)
 
         return self
 
+    def __replace_write_mode(self, write_mode: WriteMode):
+        """
+        Replace the write mode of the bundle and of all bundles below it.
+
+        Args:
+            write_mode: The write mode to set.
+        """
+
+        self.write_mode = write_mode
+        for _, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.__replace_write_mode(write_mode)
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__replace_write_mode(write_mode)
+
+    def __apply_write_mode(self):
+        """
+        Put all signals into the write mode that was set for the innermost bundle they belong to.
+        """
+
+        if self.write_mode is not None:
+            self.__set_all_signals_write_mode(self.write_mode)
+        for _, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.__apply_write_mode()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__apply_write_mode()
+
     def __set_all_signals_write_mode(self, write_mode: WriteMode):
         """
         Set the write mode of all signals in the bundle.
@@ -742,8 +772,7 @@ class Bundle(MObject):
         )
 
         self.bound = True
-        if self.write_mode is not None:
-            self.__set_all_signals_write_mode(self.write_mode)
+        self.__apply_write_mode()
         self.make_requset_response_for(dut)
         return self
 
-- 
2.43.0


From 923c201fff12b7eee3ad4b44aac79e2d508e2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 35/47] fix: agents may have properties and refer to driver
 methods of other agents

---
 toffee/agent.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/toffee/agent.py b/toffee/agent.py
index 0509e4a..8af8126 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -85,9 +85,7 @@ class Agent:
             A generator that yields all driver method in the agent.
         """
 
-        for attr in dir(self):
-            if hasattr(getattr(self, attr), "__is_driver_decorated__"):
-                yield getattr(self, attr)
+        yield from self.__all_own_methods("__is_driver_decorated__")
 
     def all_monitor_method(self):
         """
@@ -97,9 +95,19 @@ class Agent:
             A generator that yields all monitor method in the agent.
         """
 
+        yield from self.__all_own_methods("__is_monitor_decorated__")
+
+    def __all_own_methods(self, mark):
+        """
+        Yields all methods of the agent that carry the mark. Properties are not evaluated, they may not be ready yet, and
+        methods of other agents are left out.
+        """
+
         for attr in dir(self):
-            if hasattr(getattr(self, attr), "__is_monitor_decorated__"):
-                yield getattr(self, attr)
+            if hasattr(inspect.getattr_static(self, attr, None), mark):
+                method = getattr(self, attr)
+                if getattr(method, "__self__", self) is self:
+                    yield method
 
     def get_driver_method(self, name):
         """Get the driver method by name."""
@@ -121,6 +129,7 @@ class Agent:
 
 
 import functools
+import inspect
 
 
 def __driver_wrapped_func(func):
-- 
2.43.0


From 0c9f7bc76a0898cebff7866b309631c19be8f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 36/47] fix: driver and monitor methods may call the method
 they override

---
 toffee/agent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toffee/agent.py b/toffee/agent.py
index 8af8126..29fdf62 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -138,6 +138,8 @@ def __driver_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
+        if driver.func is not func:  # called by the method that overrides it
+            return await func(agent, *args, **kwargs)
         return await driver.process_driver_call(agent, args, kwargs)
 
     wrapper.__original_func__ = func
@@ -164,6 +166,8 @@ def __monitor_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         monitor = agent.monitors[func.__name__]
+        if monitor.func is not func:  # called by the method that overrides it
+            return await func(agent, *args, **kwargs)
         return await monitor.get_queue.get()
 
     wrapper.__original_func__ = func
-- 
2.43.0


From d172fec24b7cd497f4cf3439d91522c1a9022e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 37/47] fix: models and environments may have properties that
 are not ready when a model is attached

---
 toffee/env.py   | 6 +++++-
 toffee/model.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/toffee/env.py b/toffee/env.py
index 3d7123a..5b2f203 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -91,7 +91,11 @@ class Env(MObject):
         """
 
         for attr in dir(self):
-            if isinstance(getattr(self, attr), Agent):
+            try:
+                value = getattr(self, attr)
+            except Exception:  # a property that is not ready to be evaluated
+                continue
+            if isinstance(value, Agent):
                 yield attr
 
     def __config_agent_name(self):
diff --git a/toffee/model.py b/toffee/model.py
index bab03ba..b396415 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -348,6 +348,9 @@ class Model(Component):
         self.all_monitor_hooks.clear()
 
         for attr in dir(self):
+            # A property is neither a port nor a hook, and it may not be ready to be evaluated
+            if isinstance(getattr(type(self), attr, None), property):
+                continue
             attr_value = getattr(self, attr)
 
             if isinstance(attr_value, Port):
-- 
2.43.0


From f6490828d260ffebcb4125f1ae14dd9a43b909e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 38/47] fix: models that define their own equality can be
 attached and are told apart

---
 toffee/env.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 5b2f203..850b1cf 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -72,9 +72,12 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_models:
+        # Models may define their own equality
+        if any(attached is model for attached in self.attached_models):
             self.__uninject_all(model)
-            self.attached_models.remove(model)
+            self.attached_models = [
+                attached for attached in self.attached_models if attached is not model
+            ]
             model.clear_matched()
             model.attached_env = None
         else:
@@ -194,7 +197,7 @@ class Env(MObject):
         }
 
         driver = self.__get_driver(agent_name, driver_method.__name__)
-        driver.model_infos[model] = model_info
+        driver.model_infos[id(model)] = model_info
 
     def __inject_monitor_method(self, model: Model, agent_name, monitor_method):
         """
@@ -215,7 +218,7 @@ class Env(MObject):
         }
 
         monitor = self.__get_monitor(agent_name, monitor_method.__name__)
-        monitor.model_infos[model] = model_info
+        monitor.model_infos[id(model)] = model_info
 
     def __inject_all(self, model):
         """
@@ -241,11 +244,11 @@ class Env(MObject):
 
             for driver_method in agent.all_driver_method():
                 driver = self.__get_driver(agent_name, driver_method.__name__)
-                driver.model_infos.pop(model, None)
+                driver.model_infos.pop(id(model), None)
 
             for monitor_method in agent.all_monitor_method():
                 monitor = self.__get_monitor(agent_name, monitor_method.__name__)
-                monitor.model_infos.pop(model, None)
+                monitor.model_infos.pop(id(model), None)
 
     def __ensure_model_match(self, model: Model):
         """
-- 
2.43.0


From e706f7705db7f86ea77f63d265cbfe2cb8a5e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 39/47] fix: a hook decorator used for several functions gave
 all of them the name of the first

---
 toffee/model.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/toffee/model.py b/toffee/model.py
index b396415..84ea461 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -45,13 +45,14 @@ def agent_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal agent_name
+        # The decorator may be used for several functions
+        func_agent_name = agent_name
 
         if agent_name == "" and agents == [] and methods == []:
-            agent_name = func.__name__
+            func_agent_name = func.__name__
 
         func.__is_agent_hook__ = True
-        func.__agent_name__ = agent_name
+        func.__agent_name__ = func_agent_name
         func.__agents__ = agents
         func.__methods__ = methods
         func.__matched__ = [False]
@@ -101,19 +102,20 @@ def driver_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal driver_path, agent_name, driver_name
+        # The decorator may be used for several functions
+        func_path = driver_path
 
         if driver_path == "":
             if agent_name != "":
                 if driver_name != "":
-                    driver_path = f"{agent_name}.{driver_name}"
+                    func_path = f"{agent_name}.{driver_name}"
                 else:
-                    driver_path = f"{agent_name}.{func.__name__}"
+                    func_path = f"{agent_name}.{func.__name__}"
             else:
-                driver_path = func.__name__.replace("__", ".")
+                func_path = func.__name__.replace("__", ".")
 
         func.__is_driver_hook__ = True
-        func.__driver_path__ = driver_path
+        func.__driver_path__ = func_path
         func.__matched__ = [False]
         func.__priority__ = priority
         func.__sche_order__ = sche_order
@@ -154,20 +156,21 @@ def monitor_hook(
     assert priority in range(0, 100), "priority should be between 0 and 99"
 
     def decorator(func):
-        nonlocal monitor_path, agent_name, monitor_name
+        # The decorator may be used for several functions
+        func_path = monitor_path
 
         if monitor_path == "":
             if agent_name != "":
                 if monitor_name != "":
-                    monitor_path = f"{agent_name}.{monitor_name}"
+                    func_path = f"{agent_name}.{monitor_name}"
                 else:
-                    monitor_path = f"{agent_name}.{func.__name__}"
+                    func_path = f"{agent_name}.{func.__name__}"
             else:
-                monitor_path = func.__name__.replace("__", ".")
+                func_path = func.__name__.replace("__", ".")
 
         func.__is_monitor_hook__ = True
         func.__priority__ = priority
-        func.__monitor_path__ = monitor_path
+        func.__monitor_path__ = func_path
         func.__matched__ = [False]
 
         return func
-- 
2.43.0


From fa24295b232476d5abd8682a94eb9cc1341abd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 40/47] fix: Executor took any coroutine with a variable named
 agent for a driver call

---
 toffee/executor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index aaa90e1..168a848 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -273,8 +273,10 @@ class Executor(MObject):
             coro: The coroutine object.
         """
 
-        agent = coro.cr_frame.f_locals.get("agent", None)
-        driver_name = coro.__name__
+        # Other coroutine functions may have a variable named agent as well
+        local_vars = coro.cr_frame.f_locals
+        drivers = getattr(local_vars.get("agent", None), "drivers", None)
+        driver = drivers.get(coro.__name__, None) if isinstance(drivers, dict) else None
 
-        if agent is not None:
-            return agent.drivers.get(driver_name, None)
+        if driver is not None and driver.func is local_vars.get("func", None):
+            return driver
-- 
2.43.0


From b19c8fd263a9ca3c7ee664fe04686c138c0b7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 41/47] fix: a call rejected by Executor left an empty group

---
 toffee/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 168a848..7484c12 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -209,9 +209,6 @@ class Executor(MObject):
             if driver is not None:
                 sche_group = f"{driver.agent_name}.{sche_group}"
 
-        if sche_group not in self.__coros:
-            self.__coros[sche_group] = []
-
         if priority is not None:
             assert 0 <= priority <= 99, "Priority should be between 0 and 99"
 
@@ -230,6 +227,9 @@ class Executor(MObject):
                 driver is not None
             ), f"{coro_name} is not a driver function, cannot set sche_order"
 
+        # A rejected call must not leave an empty group
+        if sche_group not in self.__coros:
+            self.__coros[sche_group] = []
         self.__coros[sche_group].append((coro, sche_order, priority))
 
     @staticmethod
-- 
2.43.0


From 81cf6d264737ba9ac55b9a019ee258e771d82859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 42/47] fix: models may have cached properties that are not
 ready when the model is attached

---
 toffee/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toffee/model.py b/toffee/model.py
index 84ea461..4d7f1f2 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -8,6 +8,8 @@ __all__ = [
     "MonitorPort",
 ]
 
+from functools import cached_property
+
 from .asynchronous import Component
 from .asynchronous import Queue
 from .logger import warning, error
@@ -352,7 +354,9 @@ class Model(Component):
 
         for attr in dir(self):
             # A property is neither a port nor a hook, and it may not be ready to be evaluated
-            if isinstance(getattr(type(self), attr, None), property):
+            if isinstance(
+                getattr(type(self), attr, None), (property, cached_property)
+            ):
                 continue
             attr_value = getattr(self, attr)
 
-- 
2.43.0


From 988544869aff20fddd30f2a06734a22289ee72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 43/47] fix: printing a bundle failed when a signal of its
 signal list is not connected

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 0b9d16f..94dfa14 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1244,7 +1244,7 @@ class Bundle(MObject):
 
         signals = ", ".join(
             [
-                f"{signal}: {getattr(self, signal)}"
+                f"{signal}: {getattr(self, signal, None)}"
                 for signal in self.current_level_signals
             ]
         )
-- 
2.43.0


From 043a2a21d5f27385f51bfc9d876f236c330d5c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 44/47] fix: mark_function failed for points whose bins are not
 named by strings

---
 toffee/funcov.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 7cba255..b16bc6b 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -368,13 +368,16 @@ class CovGroup(object):
         for b_name in bin_names:
             bins = []
             b_name = b_name.strip()
+            # Bins may have names that are not strings, e.g. numbers
             if b_name in available_bins:
                 bins = [b_name]
             elif "*" in b_name or "?" in b_name:
-                bins = [b for b in available_bins if fnmatch.fnmatch(b, b_name)]
+                bins = [b for b in available_bins if fnmatch.fnmatch(str(b), b_name)]
             else:
                 pattern = re.compile(b_name)
-                bins = [bin_key for bin_key in available_bins if pattern.match(bin_key)]
+                bins = [
+                    bin_key for bin_key in available_bins if pattern.match(str(bin_key))
+                ]
             assert len(bins) > 0, "No bin matched for pattern: %s" % b_name
             matched_bins.extend(bins)
         for b_name in list(set(matched_bins)):
-- 
2.43.0


From d7ebba355a34ef11a4439ae73733a8c2510cec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:07 +0000
Subject: [PATCH 45/47] fix: a sample interrupted by an exception of a
 condition no longer stops sampling of a covered group

---
 toffee/funcov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index b16bc6b..9c3dba5 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -474,14 +474,15 @@ class CovGroup(object):
             return
         self.sample_count += 1
         all_hinted = True
-        self.all_once = True
+        all_once = True
         for _, v in self.cov_points.items():
             hinted, onece = self.__check__(v)
             if not hinted:
                 all_hinted = False
             if not onece:
-                self.all_once = False
+                all_once = False
         self.hinted = all_hinted
+        self.all_once = all_once
         return self
 
     def sample_stoped(self):
-- 
2.43.0


From 33f3ccc8961199f0be2424492b9b67c3fcb2b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 46/47] fix: tasks that wait for something nobody else refers
 to are no longer garbage collected during a run

---
 toffee/asynchronous.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 204c5b3..62c694e 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -253,6 +253,19 @@ def handle_exception(loop, context):
     loop.stop()
 
 
+def create_referenced_task(loop, coro, **kwargs):
+    """
+    Task factory that keeps a reference to every task until it is done. The event loop itself only has weak references,
+    so a task waiting for something that nobody else refers to could be garbage collected instead of being cancelled at
+    the end of the run.
+    """
+
+    task = asyncio.Task(coro, loop=loop, **kwargs)
+    loop.referenced_tasks.add(task)
+    task.add_done_callback(loop.referenced_tasks.discard)
+    return task
+
+
 async def main_coro(test, env_handle=None):
     """
     Wrapper for a coroutine to meet the rules for toffee.
@@ -270,6 +283,8 @@ async def main_coro(test, env_handle=None):
 
     loop = asyncio.get_event_loop()
     loop.set_exception_handler(handle_exception)
+    loop.referenced_tasks = set()
+    loop.set_task_factory(create_referenced_task)
     loop.new_task_run = False
     loop.test_done = False
     if not hasattr(loop, "delayer_list"):
-- 
2.43.0


From 730c684377c8902a052729be97398affe6dc24c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:40 +0000
Subject: [PATCH 47/47] fix: warn about every unconnected signal of a signal
 list under its own name

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 94dfa14..a0c065e 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1401,11 +1401,11 @@ class Bundle(MObject):
             for idx, signal in enumerate(signal_list.names):
                 if signal not in connected_signals:
                     rule_string = Bundle.__get_rule_string(rule_stack, signal)
-                    level_string = Bundle.__appended_level_string(
+                    full_signal_name = Bundle.__appended_level_string(
                         level_string, f"{signal_list_name}[{idx}]"
                     )
                     warning(
-                        f'The signal that can be connected to "{level_string}" '
+                        f'The signal that can be connected to "{full_signal_name}" '
                         f'is not found in dut, it should satisfy rule "{rule_string}"'
                     )
 
-- 
2.43.0

