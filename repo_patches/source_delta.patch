From c1da652e8c7764ced57bae93abba7271655225f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 01/53] fix: shut down the children of a node whose own
 shutdown fails

---
 ros_bt_py/ros_bt_py/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..cfc8c95 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -681,7 +681,9 @@ class Node(abc.ABC):
                     action_name="shutdown()",
                 ):
                     case Err(e):
-                        return Err(e)
+                        # The children still have to be shut down
+                        if error is None:
+                            error = e
                     case Ok(None):
                         pass
 
-- 
2.43.0


From 345100f345994583bab0a475d77855360f1041aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 02/53] fix: switches untick their children when no child
 matches the input

---
 ros_bt_py/ros_bt_py/nodes/fallback.py        | 7 +++++++
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..ba87e8e 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -63,6 +63,13 @@ class NameSwitch(FlowControl):
                 name = n
         if name not in self.child_map:
             self.logwarn("Ticking without children. Is this really what you want?")
+            # No child is selected, so none may keep running
+            for child in self.children:
+                match child.untick():
+                    case Err(e):
+                        return Err(e)
+                    case Ok(_):
+                        pass
             return Ok(BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 888ea4a..ec800a7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -119,16 +119,23 @@ class EnumSwitch(FlowControl):
             case Ok(c):
                 case = c
 
+        e_name = None
         if case in self.pchild_dict.keys():
             e_name = self.pchild_dict[case]
         else:
             self.logwarn("Input did not match possible children.")
-            return Ok(BTNodeState.FAILED)
 
         if e_name not in self.child_map:
             self.logwarn(
                 "Ticking without matching child. Is this really what you want?"
             )
+            # No child is selected, so none may keep running
+            for child in self.children:
+                match child.untick():
+                    case Err(e):
+                        return Err(e)
+                    case Ok(_):
+                        pass
             return Ok(BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
-- 
2.43.0


From f7143973e63a71a0b5c539c2a5d8cb88fc5babd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 03/53] fix: memory fallback forgets its running child after a
 result, also when unticked

---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index ba87e8e..ef03493 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -307,6 +307,9 @@ class MemoryFallback(FlowControl):
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
+        # A result ends the memory, even if it is unticked before the next tick
+        if self.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
+            self.last_running_child = 0
         for child in self.children:
             match child.untick():
                 case Err(e):
-- 
2.43.0


From a73b3037be23dadd529bf4a59faefb1a48016eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 04/53] fix: setting an unchanged value does not clear the
 updated flag

---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..5d4838d 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,8 +263,8 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
         if has_changed:
+            self._updated = True
             self._value = deepcopy(value)
         return Ok(None)
 
-- 
2.43.0


From c3494c1cad9f53bd645c501f305c0af4eaef50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 05/53] fix: success throttle compares states instead of
 results

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..61c83e4 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,11 +140,14 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
-                    return result
-                if result == BTNodeState.SUCCEEDED:
-                    self._last_success_tick = current_time
-                    return result
+                match result:
+                    case Err(_) | Ok(BTNodeState.RUNNING):
+                        return result
+                    case Ok(BTNodeState.SUCCEEDED):
+                        self._last_success_tick = current_time
+                        return result
+                    case Ok(_):
+                        pass
         return Ok(BTNodeState.FAILED)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 7c608facacb3e32700af27df9438abc2b2bf96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 06/53] fix: list iteration unticks its child when the list
 becomes empty

---
 ros_bt_py/ros_bt_py/nodes/list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/list.py b/ros_bt_py/ros_bt_py/nodes/list.py
index 95bc03e..d8e7b4b 100644
--- a/ros_bt_py/ros_bt_py/nodes/list.py
+++ b/ros_bt_py/ros_bt_py/nodes/list.py
@@ -211,6 +211,13 @@ class IterateList(Decorator):
                     pass
         else:
             self.loginfo("Nothing to iterate, input list is empty")
+            # The list may have been emptied while the child was running
+            for child in self.children:
+                match child.untick():
+                    case Err(e):
+                        return Err(e)
+                    case Ok(_):
+                        pass
             return Ok(BTNodeState.SUCCEEDED)
 
         if len(self.children) == 0:
-- 
2.43.0


From 2d5e03e54b20e7b2f485a0173c58ae25e7b06d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 07/53] fix: parallel nodes calculate their utility before
 setup

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8c528ec..5e7ab2c 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -161,10 +161,16 @@ class Parallel(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        # Utility is also calculated before the node has been set up
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                needed_successes = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes}) "
+                    f"Option value needed_successes ({needed_successes}) "
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -209,7 +215,7 @@ class Parallel(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
@@ -395,10 +401,16 @@ class ParallelFailureTolerance(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        # Utility is also calculated before the node has been set up
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                needed_successes = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes})"
+                    f"Option value needed_successes ({needed_successes})"
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -442,7 +454,7 @@ class ParallelFailureTolerance(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
-- 
2.43.0


From 497599427fb0e3bae9cfd522859545f0feecf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 08/53] fix: wrongly typed values are refused with an error
 instead of an exception

---
 ros_bt_py/ros_bt_py/data_types.py | 59 +++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5d4838d..e3bac28 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -441,11 +441,21 @@ class BuiltinContainer(DataContainer[BUILTIN]):
     _type: type[BUILTIN]
     _value: BUILTIN
 
-    @typechecked
     def set_value(self, value: BUILTIN) -> Result[None, str]:
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                return super().set_value(value)
+
+    def _check_type(self, value: Any) -> Result[None, str]:
+        """
+        Subclasses that inspect a value before calling :obj:`super().set_value`
+        use this to refuse values of other types first.
+        """
         if not isinstance(value, self._type):
             return Err(f"Given value {value} isn't of type {self._type}")
-        return super().set_value(value)
+        return Ok(None)
 
 
 @register_io_type
@@ -512,8 +522,12 @@ class NumericContainer(BuiltinContainer[NUM]):
             if self.max_value < 0:
                 self._value = self.max_value
 
-    @typechecked
     def set_value(self, value: NUM) -> Result[None, str]:
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                pass
         if value < self.min_value:
             return Err(f"Given value {value} is smaller than minimum {self.min_value}")
         if value > self.max_value:
@@ -630,8 +644,12 @@ class StringContainer(BuiltinContainer[STRING]):
             config["valid_values"] = msg.serialized_value_options
         return Ok(config)
 
-    @typechecked
     def set_value(self, value: STRING) -> Result[None, str]:
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                pass
         if len(value) > self.max_length:
             return Err(f"Length of {value} exceeds maximum of {self.max_length}")
         if self.valid_values is not None:
@@ -685,8 +703,12 @@ class PathType(StringContainer[str]):
     _type = str
     _value = ""
 
-    @typechecked
     def set_value(self, value: str) -> Result[None, str]:
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                pass
         if not value.startswith("file://") and not value.startswith("package://"):
             return Err(f"Value {value} is not a valid file or package uri")
         return super().set_value(value)
@@ -822,8 +844,12 @@ class IterableContainer(BuiltinContainer[ITER]):
         return inner_type_msg
 
     @abc.abstractmethod
-    @typechecked
     def set_value(self, value: ITER) -> Result[None, str]:
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                pass
         if len(value) > self.max_length:
             return Err(
                 f"Value {value} has more items than the limit of {self.max_length}"
@@ -845,10 +871,14 @@ class ListType(IterableContainer[list[Any]]):
     _type = list
     _value = []
 
-    @typechecked
     def set_value(self, value: list | array.array) -> Result[None, str]:
         if isinstance(value, array.array):
             value = list(value)
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                pass
         for item in value:
             match self._element_type.set_value(item):
                 case Err(e):
@@ -887,8 +917,12 @@ class DictType(IterableContainer[dict[str, Any]]):
     _type = dict
     _value = {}
 
-    @typechecked
     def set_value(self, value: dict) -> Result[None, str]:
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                pass
         cleaned_keys = {str(k): v for k, v in value.items()}
         for item in cleaned_keys.values():
             match self._element_type.set_value(item):
@@ -1133,8 +1167,12 @@ class GenericType(TypeContainerMixin, BuiltinContainer[dict]):
         config["valid_types"] = valid_types
         return Ok(config)
 
-    @typechecked
     def set_value(self, value: dict) -> Result[None, str]:
+        match self._check_type(value):
+            case Err(e):
+                return Err(e)
+            case Ok(None):
+                pass
         if IDENTIFIER_KEY not in value.keys():
             return Err(f"Dict {value} doesn't include an identifier")
         match match_dict_to_valid_types(value, self.valid_types):
@@ -1417,9 +1455,8 @@ class RosTypeContainer(TypeContainerMixin, RosContainer):
     def _validate(value: type) -> bool:
         raise NotImplementedError("Can't validate on a base class")
 
-    @typechecked
     def set_value(self, value: type) -> Result[None, str]:
-        if not self._validate(value):
+        if not isinstance(value, type) or not self._validate(value):
             return Err(f"Value {value} is not a matching ROS type")
         return super().set_value(value)
 
-- 
2.43.0


From af007c0aee3b27ee5bb377bd6c962713e7b22c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 09/53] fix: type slots report that a static value was already
 assigned

---
 ros_bt_py/ros_bt_py/data_types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index e3bac28..cb69222 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1179,8 +1179,7 @@ class GenericType(TypeContainerMixin, BuiltinContainer[dict]):
             case Err(e):
                 return Err(e)
             case Ok(None):
-                super().set_value(value)
-                return Ok(None)
+                return super().set_value(value)
 
     def is_compatible(
         self, other: DataContainer
-- 
2.43.0


From 01165e155707c4f6aaef044be7881830b171ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 10/53] fix: nested iterable types are read in the order they
 are written

---
 ros_bt_py/ros_bt_py/data_types.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index cb69222..be81ee7 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -803,17 +803,18 @@ class IterableContainer(BuiltinContainer[ITER]):
                 f"Message {msg} is for an iterable but doesn't specify proper constraints"
             )
         inner_msg = deepcopy(msg)
-        inner_msg.type_identifier = msg.value_type_identifier[0]
-        inner_msg.value_type_identifier = msg.value_type_identifier[1:]
-        inner_msg.iterable_max_length = msg.iterable_max_length[1:]
-        inner_msg.iterable_strict_length = msg.iterable_strict_length[1:]  # type: ignore
+        # The outermost iterable is the last entry, see `serialize_type`
+        inner_msg.type_identifier = msg.value_type_identifier[-1]
+        inner_msg.value_type_identifier = msg.value_type_identifier[:-1]
+        inner_msg.iterable_max_length = msg.iterable_max_length[:-1]
+        inner_msg.iterable_strict_length = msg.iterable_strict_length[:-1]  # type: ignore
         match get_iotype_for_msg(inner_msg):
             case Err(e):
                 return Err(e)
             case Ok(c):
                 config["element_type"] = c
-        config["max_length"] = msg.iterable_max_length[0]
-        config["strict_length"] = msg.iterable_strict_length[0]  # type: ignore
+        config["max_length"] = msg.iterable_max_length[-1]
+        config["strict_length"] = msg.iterable_strict_length[-1]  # type: ignore
         return Ok(config)
 
     def is_compatible(
-- 
2.43.0


From 0543abae915c6fe3032ed1e8467b23b4b72d16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 11/53] fix: messages that describe no valid type or value are
 answered with an error

---
 ros_bt_py/ros_bt_py/data_types.py | 57 +++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index be81ee7..61cb6ff 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -44,7 +44,7 @@ from typing import (
     TypeGuard,
     TypeVar,
 )
-from typeguard import typechecked
+from typeguard import TypeCheckError, typechecked
 
 from ros_bt_py.helpers import INT_LIMITS, FLOAT_LIMITS, INT_FLOAT_MAX
 from ros_bt_py.ros_helpers import get_interface_name
@@ -179,12 +179,22 @@ class DataContainer(Generic[ANY], abc.ABC):
             raise NotImplementedError("Called on abstract base class")
         if msg.type_identifier != cls.type_identifier:
             return Err("Wrong type identifier")
-        match cls._dict_from_msg(msg):
-            case Err(e):
-                return Err(e)
-            case Ok(d):
-                obj = cls(**d)
-        return Ok(obj)
+        try:
+            match cls._dict_from_msg(msg):
+                case Err(e):
+                    return Err(e)
+                case Ok(d):
+                    return Ok(cls(**d))
+        except (
+            AttributeError,
+            IndexError,
+            KeyError,
+            OverflowError,
+            RuntimeError,
+            TypeError,
+            ValueError,
+        ) as e:
+            return Err(f"Message {msg} does not describe a valid type: {e}")
 
     @abc.abstractmethod
     @typechecked
@@ -347,8 +357,25 @@ class DataContainer(Generic[ANY], abc.ABC):
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
         """
-        value = json.loads(ser_value)
-        return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
+        try:
+            value = json.loads(ser_value)
+        except (json.JSONDecodeError, RecursionError) as e:
+            return Err(f"Serialized value {ser_value} is not valid: {e}")
+        try:
+            match self._deserialize_value(value):
+                case Err(e):
+                    return Err(e)
+                case Ok(v):
+                    return self.set_value(v)
+        except (
+            AttributeError,
+            ImportError,
+            KeyError,
+            TypeCheckError,
+            TypeError,
+            ValueError,
+        ) as e:
+            return Err(f"Serialized value {ser_value} is not valid: {e}")
 
     @typechecked
     def _deserialize_value(self, value: Any) -> Result[ANY, str]:
@@ -999,6 +1026,8 @@ GENERIC_TYPE_MAP: dict[type, dict] = {
 
 
 def match_dict_to_valid_types(value: dict, valid_types: list) -> Result[None, str]:
+    if not isinstance(value, dict) or IDENTIFIER_KEY not in value.keys():
+        return Err(f"{value} doesn't include an identifier")
     for option in valid_types:
         option_value = GENERIC_TYPE_MAP[option]
         if option_value[IDENTIFIER_KEY] != value[IDENTIFIER_KEY]:
@@ -1043,7 +1072,15 @@ def get_iotype_for_dict(value_dict: dict) -> Result[DataContainer, str]:
                     args_dict[ELEMENT_KEY] = c
         io_instance = io_class(**args_dict)
         return Ok(io_instance)
-    except (KeyError, TypeError) as e:
+    except (
+        AttributeError,
+        ImportError,
+        KeyError,
+        RuntimeError,
+        TypeCheckError,
+        TypeError,
+        ValueError,
+    ) as e:
         return Err(str(e))
 
 
-- 
2.43.0


From a9f672fb746615bad45432ae9adf0fa5a1ac7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 12/53] fix: values of messages with arrays and of nested dicts
 can be written

---
 ros_bt_py/ros_bt_py/data_types.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 61cb6ff..675c114 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -191,6 +191,7 @@ class DataContainer(Generic[ANY], abc.ABC):
             KeyError,
             OverflowError,
             RuntimeError,
+            TypeCheckError,
             TypeError,
             ValueError,
         ) as e:
@@ -916,7 +917,10 @@ class ListType(IterableContainer[list[Any]]):
         return super().set_value(value)
 
     @typechecked
-    def _serialize_value(self, value: list[Any]) -> list[Any]:
+    def _serialize_value(self, value: Any) -> list[Any]:
+        # Numeric fields of ROS messages hold arrays instead of lists
+        if not isinstance(value, list):
+            value = value.tolist()
         serialized_list = []
         for item in value:
             serialized_list.append(self._element_type._serialize_value(item))
@@ -961,10 +965,11 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
-            serialized_dict[key] = self._element_type._serialize_value(item)
+            # The keys of nested dicts are not coerced when they are set
+            serialized_dict[str(key)] = self._element_type._serialize_value(item)
         return serialized_dict
 
     @typechecked
-- 
2.43.0


From 11b740d6e592f2b7a0accb37370b7dfce42274df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 13/53] fix: a string type with options is compatible with
 types that permit fewer of them

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 675c114..83481eb 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -697,8 +697,8 @@ class StringContainer(BuiltinContainer[STRING]):
         if self.valid_values is not None:
             if other.valid_values is None:
                 return False
-            for val in self.valid_values:
-                if val not in other.valid_values:
+            for val in other.valid_values:
+                if val not in self.valid_values:
                     return False
         return True
 
-- 
2.43.0


From 2711a394034305819682b06b13ad261caf02e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 14/53] fix: failed edits and loads leave the tree as it was

Editing requests checked the tree state outside of the lock, raised
exceptions to the caller, and left partial changes behind when failing;
reloading a tree lost its wirings, name and path.
---
 ros_bt_py/ros_bt_py/subtree_manager.py   | 23 ++++++-
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 86 +++++++++++++++++++-----
 2 files changed, 93 insertions(+), 16 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 32f2ff4..841896d 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -28,7 +28,7 @@
 
 from copy import deepcopy
 from threading import Lock
-from typing import Any, Dict
+from typing import Any, Callable, Dict
 import uuid
 
 from typeguard import typechecked
@@ -137,6 +137,27 @@ class SubtreeManager(object):
             self.subtree_data.clear()
             self.nested_subtree_managers.clear()
 
+    def save_for_rollback(self) -> Callable[[], None]:
+        """Return a function that restores the subtrees as they are right now."""
+        with self._lock:
+            saved = (
+                dict(self.subtree_structures),
+                dict(self.subtree_states),
+                dict(self.subtree_data),
+                dict(self.nested_subtree_managers),
+            )
+
+        def restore() -> None:
+            with self._lock:
+                (
+                    self.subtree_structures,
+                    self.subtree_states,
+                    self.subtree_data,
+                    self.nested_subtree_managers,
+                ) = saved
+
+        return restore
+
     def remove_subtree(self, node_id: uuid.UUID):
 
         def query_dict(node_id: uuid.UUID, dict: dict[uuid.UUID, Any]):
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..3f56595 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from copy import copy, deepcopy
 from importlib import metadata
 import os
 import uuid
@@ -106,20 +107,30 @@ def is_edit_service(func):
 
     @wraps(func)
     def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
-        if self.state != TreeState.EDITABLE:
-            response.success = False
-            response.error_message = (
-                f"Cannot edit tree in state {self.state}."
-                f"You need to shut down the tree to enable editing."
-            )
-            return response
-        try:
-            with self._edit_lock:
-                return func(self, request, response, **kwds)
-        finally:
-            # TODO Find a way to check if we're the outermost level
-            #   to reduce repeating publish calls
-            self.publish_structure()
+        with self._edit_lock:
+            if self.state != TreeState.EDITABLE:
+                response.success = False
+                response.error_message = (
+                    f"Cannot edit tree in state {self.state}."
+                    f"You need to shut down the tree to enable editing."
+                )
+                return response
+            restore_tree = self._save_for_rollback()
+            try:
+                response = func(self, request, response, **kwds)
+                if not response.success:
+                    restore_tree()
+                return response
+            except Exception as ex:
+                restore_tree()
+                self.get_logger().error(f"Editing the tree failed: {repr(ex)}")
+                response.success = False
+                response.error_message = f"Editing the tree failed: {repr(ex)}"
+                return response
+            finally:
+                # TODO Find a way to check if we're the outermost level
+                #   to reduce repeating publish calls
+                self.publish_structure()
 
     return service_handler
 
@@ -471,6 +482,50 @@ class TreeExecManager:
             for node_id, node in self.nodes.items()
         }
 
+    def _save_for_rollback(self) -> Callable[[], None]:
+        """Return a function that restores the tree as it is right now."""
+        links = [
+            (node, node.parent, list(node.children)) for node in self.nodes.values()
+        ]
+        # The topology holds no more than ids, so it can be copied deeply
+        copies: dict[str, Callable[[Any], Any]] = {
+            "nodes": dict,
+            "_children": deepcopy,
+            "rate": lambda rate: rate,
+        }
+        attributes = {
+            name: copy_value(vars(self)[name])
+            for name, copy_value in copies.items()
+            if name in vars(self)
+        }
+        messages = [
+            (
+                msg,
+                {
+                    field: copy(getattr(msg, field))
+                    for field in msg.get_fields_and_field_types()
+                    # The state is not part of what edits change
+                    if field != "state"
+                },
+            )
+            for msg in vars(self).values()
+            if isinstance(msg, (TreeStructure, TreeState, TreeData, DiagnosticStatus))
+        ]
+        restore_subtrees = self.subtree_manager.save_for_rollback()
+
+        def restore() -> None:
+            vars(self).update(attributes)
+            for node, parent, children in links:
+                node.parent = parent
+                node.children = children
+            for msg, fields in messages:
+                for field, value in fields.items():
+                    setattr(msg, field, value)
+            self.logging_manager.set_tree_name(self.name)
+            restore_subtrees()
+
+        return restore
+
     def set_diagnostics_name(self) -> None:
         """
         Set the tree name for ROS diagnostics.
@@ -787,7 +842,8 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            # Loading clears the tree structure, so it must not be loaded from itself
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
-- 
2.43.0


From ae077ddf2aa199913237ddc500ca383721a136ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 15/53] fix: every tree file and tree message is answered when
 loaded

Files without nodes, that are no YAML, or describe no tree caused endless
loops or exceptions; dangling, shared, repeated or cyclic children were accepted
or raised exceptions.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 93 ++++++++++++++++++------
 1 file changed, 71 insertions(+), 22 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 3f56595..f1c84de 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -43,7 +43,6 @@ import rclpy.node
 from rclpy.duration import Duration
 
 import yaml
-import yaml.scanner
 from typeguard import typechecked
 
 
@@ -144,6 +143,10 @@ def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
     for datum in data:
         if datum is None:
             continue
+        if not isinstance(datum, dict):
+            response.success = False
+            response.error_message = "Tree YAML file does not contain a tree!"
+            return response
         if not read_data:
             if Version(datum.get("version", "0.0.0")) < Version(
                 metadata.version("ros_bt_py")
@@ -157,7 +160,7 @@ def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
                         return response
                     case Ok(d):
                         datum = d
-            datum.pop("version")
+            datum.pop("version", None)
             rosidl_runtime_py.set_message_fields(response.tree, datum)
             read_data = True
         else:
@@ -182,7 +185,7 @@ def load_tree_from_file(
 ) -> MigrateTree.Response:
     """Load a tree file from disk."""
     tree = request.tree
-    while not tree.nodes:
+    if not tree.nodes:
         file_path = ""
         if not tree.path:
             response.success = False
@@ -197,9 +200,16 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (LookupError, ValueError) as ex:
+                response.success = False
+                response.error_message = (
+                    f"Error finding package {package_name}: {str(ex)}"
+                )
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -214,24 +224,32 @@ def load_tree_from_file(
 
         # load tree file and parse yaml, then convert to Tree message
         try:
-            tree_file = open(file_path, "r")
-        except IOError as ex:
+            with open(file_path, "r") as tree_file:
+                tree_yaml = tree_file.read()
+        except (OSError, ValueError) as ex:
             response.success = False
             response.error_message = f"Error opening file {file_path}: {str(ex)}"
             return response
 
-        with tree_file:
-            tree_yaml = tree_file.read()
-            try:
-                response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except yaml.scanner.ScannerError as ex:
-                response.success = False
-                response.error_message = (
-                    f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
-                )
-                return response
-            tree = response.tree
-            tree.path = request.tree.path
+        try:
+            response = parse_tree_yaml(tree_yaml=tree_yaml)
+        except Exception as ex:
+            # Apart from the errors of the yaml parser, the contents can fail to describe
+            # a tree message in many ways
+            response = MigrateTree.Response()
+            response.success = False
+            response.error_message = (
+                f"Encountered an error while parsing the tree yaml: {repr(ex)}"
+            )
+            return response
+        if not response.success:
+            return response
+        tree = response.tree
+        tree.path = request.tree.path
+        if not tree.nodes:
+            response.success = False
+            response.error_message = f"Tree file {file_path} contains no nodes"
+            return response
 
     response.success = True
     response.tree = tree
@@ -907,6 +925,7 @@ class TreeExecManager:
             response.error_message = clear_response.error_message
             return response
         # First just add all nodes to the tree, then restore tree structure
+        loaded_ids: list[uuid.UUID] = []
         for node in tree.nodes:
             match self.instantiate_node_from_msg(
                 node_msg=node,
@@ -917,7 +936,12 @@ class TreeExecManager:
                     response.error_message = str(e)
                     return response
                 case Ok(n):
-                    self.nodes[n.node_id] = n
+                    loaded_ids.append(n.node_id)
+
+        if len(set(loaded_ids)) != len(loaded_ids):
+            response.success = False
+            response.error_message = "Tree contains multiple nodes with the same id"
+            return response
 
         for node in tree.nodes:
             # We just parsed all ids before, so we know them to be safe
@@ -930,7 +954,20 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
-                match self.nodes[node_id].add_child(self.nodes[child_id]):
+                child = self.nodes.get(child_id)
+                if child is None:
+                    response.success = False
+                    response.error_message = (
+                        f"Child {child_id} of node {node_id} is not part of the tree"
+                    )
+                    return response
+                if child.parent is not None:
+                    response.success = False
+                    response.error_message = (
+                        f"Node {child_id} is a child of multiple nodes"
+                    )
+                    return response
+                match self.nodes[node_id].add_child(child):
                     case Err(e):
                         response.success = False
                         response.error_message = str(e)
@@ -938,6 +975,18 @@ class TreeExecManager:
                     case Ok(_):
                         pass
 
+        # Every node has at most one parent, so whatever is not below a root is in a cycle
+        reachable = [
+            node.node_id
+            for root in self.nodes.values()
+            if root.parent is None
+            for node in root.get_children_recursive()
+        ]
+        if len(reachable) != len(self.nodes):
+            response.success = False
+            response.error_message = "Tree contains nodes that are their own ancestors"
+            return response
+
         for n in self.nodes.values():
             self._children[n.node_id] = [c.node_id for c in n.children]
 
-- 
2.43.0


From dd603b4902da18a8a6d9a894c7171cf28da1c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 16/53] fix: editing requests never tie the tree into knots

Nodes could be moved below themselves, added with children that have a
parent already, replaced by themselves or their descendants; given children were
never found; repeated wirings were kept and could not be removed; public data was
dropped and the root id of a removed root kept.
---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 64 ++++++++++++++++--------
 ros_bt_py/ros_bt_py/tree_exec_manager.py |  5 +-
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..df55a51 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -191,8 +191,13 @@ class TreeEditManager(TreeExecManager):
 
         # Add children from msg to node
         missing_children = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
+        for ros_child_id in request.node.child_ids:
+            child_id = ros_to_uuid(ros_child_id).unwrap_or(None)
+            if (
+                child_id in self.nodes
+                and child_id != instance.node_id
+                and self.nodes[child_id].parent is None
+            ):
                 match instance.add_child(self.nodes[child_id]):
                     case Err(e):
                         self.get_logger().warn(f"Could not add child: {str(e)}")
@@ -200,7 +205,7 @@ class TreeEditManager(TreeExecManager):
                     case Ok(_):
                         pass
             else:
-                missing_children.append(child_id)
+                missing_children.append(ros_child_id)
         if missing_children:
             response.success = False
             response.error_message = (
@@ -214,6 +219,7 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
@@ -240,16 +246,7 @@ class TreeEditManager(TreeExecManager):
             )
             return response
 
-        if parent_node_id != uuid.UUID(int=0):
-            if parent_node_id not in self._children:
-                self._children[parent_node_id] = []
-            self._children[parent_node_id].append(instance.node_id)
-        if instance.node_id not in self._children:
-            self._children[instance.node_id] = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                self._children[instance.node_id].append(child_id)
-
+        self._sync_children()
         return response
 
     @is_edit_service
@@ -320,6 +317,18 @@ class TreeEditManager(TreeExecManager):
                     f"Discarded stale wiring while removing nodes: {wiring}"
                 )
 
+        removed_ros_ids = [uuid_to_ros(removed_id) for removed_id in node_ids_to_remove]
+        self._tree_structure.public_inputs = [
+            location
+            for location in self._tree_structure.public_inputs
+            if location.node_id not in removed_ros_ids
+        ]
+        self._tree_structure.public_outputs = [
+            location
+            for location in self._tree_structure.public_outputs
+            if location.node_id not in removed_ros_ids
+        ]
+
         # Remove references from every surviving adjacency list.  This also
         # repairs multiple-parent and cyclic editable graphs without traversal.
         for parent_id, children in self._children.items():
@@ -711,8 +720,9 @@ class TreeEditManager(TreeExecManager):
         # If the new parent is in the moved node's descendant set, attaching
         # it would create a cycle.  Use the editable adjacency graph rather
         # than recursive Node serialization so malformed graphs stay bounded.
+        self._sync_children()
         descendants = set()
-        pending = list(self._children.get(node_id, []))
+        pending = [node_id]
         while pending:
             descendant_id = pending.pop()
             if descendant_id in descendants:
@@ -723,7 +733,7 @@ class TreeEditManager(TreeExecManager):
             response.success = False
             response.error_message = (
                 f"Cannot move node {node.name} to new parent node {new_parent.name}. "
-                f"{new_parent.name} is a child of {node.name}!"
+                f"{new_parent.name} is {node.name} or a child of it!"
             )
             return response
 
@@ -795,6 +805,13 @@ class TreeEditManager(TreeExecManager):
             )
             return response
 
+        if old_node_id == new_node_id:
+            response.success = False
+            response.error_message = (
+                f'Node to be replaced ("{old_node_id}") is its own replacement.'
+            )
+            return response
+
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
@@ -859,6 +876,13 @@ class TreeEditManager(TreeExecManager):
                         old_node_child_index -= 1
                     break
 
+        # If the new node is somewhere below the old one, take it out first:
+        # it must not end up below itself.
+        if new_node.parent is not None and any(
+            node.node_id == new_node_id for node in old_node.get_children_recursive()
+        ):
+            new_node.parent.remove_child(new_node_id)
+
         # Move the children from old to new
         for child_id in [child.node_id for child in old_node.children]:
             match old_node.remove_child(child_id):
@@ -870,8 +894,6 @@ class TreeEditManager(TreeExecManager):
                     return response
                 case Ok(n):
                     child = n
-            if child_id == new_node.node_id:
-                continue
             match new_node.add_child(child):
                 case Err(e):
                     response.success = False
@@ -942,7 +964,8 @@ class TreeEditManager(TreeExecManager):
                     )
                     return response
                 case Ok(None):
-                    successful_wirings.append(wiring)
+                    if wiring not in self.wirings + successful_wirings:
+                        successful_wirings.append(wiring)
 
         # only actually wire any data if there were no errors
         # We made it here, so all the Wirings should be valid. Time to save
@@ -978,8 +1001,9 @@ class TreeEditManager(TreeExecManager):
                 return response
             successful_unwirings.append(wiring)
 
-        for wiring in successful_unwirings:
-            self.wirings.remove(wiring)
+        self.wirings = [
+            wiring for wiring in self.wirings if wiring not in successful_unwirings
+        ]
         response.success = True
         return response
 
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index f1c84de..f65e16e 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -669,6 +669,7 @@ class TreeExecManager:
         """
         self._sync_children()
         if not self.nodes:
+            self.root_id = uuid.UUID(int=0)
             return Ok(None)
         all_child_ids: set[uuid.UUID] = set()
         for child_list in self._children.values():
@@ -677,6 +678,8 @@ class TreeExecManager:
             node for node in self.nodes.values() if node.node_id not in all_child_ids
         ]
 
+        if len(possible_roots) != 1:
+            self.root_id = uuid.UUID(int=0)
         if len(possible_roots) > 1:
             return Err(
                 TreeTopologyError(
@@ -1546,8 +1549,6 @@ class TreeExecManager:
                 else:
                     subtree = get_subtree_msg_result.unwrap()[0]
                     self._tree_structure.nodes = subtree.nodes
-                    self._tree_structure.public_inputs = subtree.public_inputs
-                    self._tree_structure.public_outputs = subtree.public_outputs
             else:
                 self._tree_structure.nodes = []
         else:
-- 
2.43.0


From 2c53bb0935f0f5237716f0393399e58b5bb2577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 17/53] fix: searching for cycles ends when the search starts
 below one

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index df55a51..fb1e873 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -81,10 +81,12 @@ class TreeEditManager(TreeExecManager):
                     safe_node_ids.extend(cycle_candidates)
                     break
                 current_node = self.nodes[parent_id]
-                cycle_candidates.append(current_node.node_id)
-                if current_node.node_id == starting_id:
-                    nodes_in_cycles.extend(cycle_candidates)
+                if current_node.node_id in cycle_candidates:
+                    # The starting node is in this cycle, or somewhere below it
+                    cycle_start = cycle_candidates.index(current_node.node_id)
+                    nodes_in_cycles.extend(cycle_candidates[cycle_start:])
                     break
+                cycle_candidates.append(current_node.node_id)
                 if current_node.node_id in safe_node_ids:
                     # We've already checked for cycles from the parent node, no
                     # need to do that again.
-- 
2.43.0


From 3bfc659c8d068ae3107a12db3fc9c46e3e5ea924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 18/53] fix: adding a node answers with the id of the new node

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index fb1e873..6fa29f7 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -123,6 +123,7 @@ class TreeEditManager(TreeExecManager):
         )
 
         response.success = internal_response.success
+        response.node_id = internal_response.node_id
         response.error_message = internal_response.error_message
         return response
 
-- 
2.43.0


From 9c919b55fd9039f5c7d358435f6d80a7a0ba2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 19/53] fix: loading a subtree that contains itself is refused

---
 ros_bt_py/ros_bt_py/ros_nodes/subtree.py | 22 +++++++++++++++++++++-
 ros_bt_py/ros_bt_py/subtree_manager.py   |  4 +++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
index b22efdd..66b6d42 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
@@ -95,9 +95,29 @@ class Subtree(Leaf):
         #   we generate a new uuid and store it in `tree_ref`
         self.tree_ref = uuid.uuid4()
 
+        match self.inputs.get_value_as("subtree_path", str):
+            case Err(e):
+                return Err(e)
+            case Ok(s):
+                subtree_path = s
+        outer_paths = (
+            self.subtree_manager.subtree_paths
+            if self.subtree_manager is not None
+            else frozenset()
+        )
+        if subtree_path in outer_paths:
+            return Err(
+                NodeConfigError(
+                    f"Failed to load subtree {self.name}: "
+                    f"The tree at {subtree_path} contains itself"
+                )
+            )
+
         # since the subtree gets a prefix, we can just have it use the
         # parent debug manager TODO Is that still true?
-        self.nested_subtree_manager = SubtreeManager()
+        self.nested_subtree_manager = SubtreeManager(
+            subtree_paths=outer_paths | {subtree_path}
+        )
         subtree_logging_manager = (
             LoggingManager(
                 ros_node=self.ros_node,
diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 841896d..c833e54 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -47,7 +47,9 @@ class SubtreeManager(object):
       is persisted while the tree_id is not.
     """
 
-    def __init__(self):
+    def __init__(self, subtree_paths: frozenset[str] = frozenset()):
+        # The paths of the subtrees that the managed tree is part of
+        self.subtree_paths = subtree_paths
 
         self.subtree_structures: Dict[uuid.UUID, TreeStructure] = {}
         self.subtree_states: Dict[uuid.UUID, TreeState] = {}
-- 
2.43.0


From 19016610410155be137525531f9b103772e95815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 20/53] fix: exceptions in a tick end in the error state

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index f65e16e..bf2f430 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -698,7 +698,10 @@ class TreeExecManager:
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-        tick_result = self.tick()
+        try:
+            tick_result = self.tick()
+        except Exception as exc:
+            tick_result = Err(BehaviorTreeException(f"{type(exc).__name__}: {exc}"))
 
         if tick_result.is_err():
             self.get_logger().error(
-- 
2.43.0


From cb2d55b84321e27005291cf441420cabfbddb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 21/53] fix: execution commands and edits do not overlap, and a
 stopped tree is idle

Commands and edits arrive in several threads. Two ticking commands could
start two tick threads, a command could start ticking while an edit was
in progress, and a stop request could overwrite the state of a tree that
had just stopped by itself. The tree was idle before it was unticked.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 75 +++++++++++++++++++-----
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index bf2f430..0d60cc5 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -89,6 +89,15 @@ from diagnostic_msgs.msg import DiagnosticArray, DiagnosticStatus
 from std_msgs.msg import Float64
 
 
+def _refuse_edit(manager: "TreeExecManager", response: Any):
+    response.success = False
+    response.error_message = (
+        f"Cannot edit tree in state {manager.state}."
+        f"You need to shut down the tree to enable editing."
+    )
+    return response
+
+
 def is_edit_service(func):
     """
     Decorate tree editing service handlers to prohibit them from editing while the active tree.
@@ -106,14 +115,12 @@ def is_edit_service(func):
 
     @wraps(func)
     def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
+        # Do not wait for the lock while a command is being executed
+        if self.state != TreeState.EDITABLE:
+            return _refuse_edit(self, response)
         with self._edit_lock:
             if self.state != TreeState.EDITABLE:
-                response.success = False
-                response.error_message = (
-                    f"Cannot edit tree in state {self.state}."
-                    f"You need to shut down the tree to enable editing."
-                )
-                return response
+                return _refuse_edit(self, response)
             restore_tree = self._save_for_rollback()
             try:
                 response = func(self, request, response, **kwds)
@@ -388,6 +395,8 @@ class TreeExecManager:
         self._children: Dict[uuid.UUID, list[uuid.UUID]] = {}
 
         self._edit_lock = RLock()
+        # Held while an execution command is being processed
+        self._control_lock = Lock()
         # Stop the tick thread after a single tick
         self._once: bool = False
         # Stop the tick thread after the tree returns something other than
@@ -818,13 +827,15 @@ class TreeExecManager:
                 self.publish_tick_frequency(tick_frequency_msg)
             self.rate.sleep()
 
-        self.state = TreeState.IDLE
-        self.publish_state()
-
         # Ensure all nodes are stopped and not doing anything in
         # the background.
         untick_result = root.untick()
-        return untick_result.map(lambda x: None)
+        if untick_result.is_err():
+            return Err(untick_result.unwrap_err())
+
+        self.state = TreeState.IDLE
+        self.publish_state()
+        return Ok(None)
 
     ####################
     # Service Handlers #
@@ -1265,7 +1276,7 @@ class TreeExecManager:
             return response
 
     @typechecked
-    def control_execution(  # noqa: C901
+    def control_execution(
         self,
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
@@ -1279,16 +1290,43 @@ class TreeExecManager:
         the root node reports a result (SUCCEEDED or FAILED), or to
         stop or reset the entire tree.
 
+        Commands are processed one after another: stopping commands
+        wait for the command that is being processed, others are refused.
+
         """
+        is_stopping = request.command in [
+            ControlTreeExecution.Request.STOP,
+            ControlTreeExecution.Request.SHUTDOWN,
+            ControlTreeExecution.Request.SETUP_AND_SHUTDOWN,
+        ]
+        if not self._control_lock.acquire(blocking=is_stopping):
+            response.success = False
+            response.error_message = "Another execution command is being processed"
+            response.tree_state = self.state
+            return response
+        try:
+            # The tree must not be edited while a command changes its state
+            with self._edit_lock:
+                return self._control_execution(request, response)
+        finally:
+            self._control_lock.release()
+
+    @typechecked
+    def _control_execution(  # noqa: C901
+        self,
+        request: ControlTreeExecution.Request,
+        response: ControlTreeExecution.Response,
+    ) -> ControlTreeExecution.Response:
         response.success = False
         if self._tick_thread is not None:
-            is_idle = self.state == TreeState.IDLE
-            if is_idle and self._tick_thread.is_alive():
+            is_ticking = self.state in [TreeState.TICKING, TreeState.STOP_REQUESTED]
+            if not is_ticking and self._tick_thread.is_alive():
                 self._tick_thread.join(0.5)
                 if self._tick_thread.is_alive():
                     response.success = False
                     response.error_message = (
-                        "Tried to join tick thread with Tree state IDLE, but failed!"
+                        f"Tried to join tick thread with Tree state {self.state}, "
+                        "but failed!"
                     )
                     self.publish_state()
                     return response
@@ -1342,7 +1380,10 @@ class TreeExecManager:
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
             if tree_state == TreeState.TICKING:
-                self.state = TreeState.STOP_REQUESTED
+                with self._tree_lock:
+                    # The tick thread might have stopped by itself by now
+                    if self._tree_state.state == TreeState.TICKING:
+                        self._tree_state.state = TreeState.STOP_REQUESTED
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
@@ -1399,9 +1440,11 @@ class TreeExecManager:
                     root.untick()
                     state = root.state
                     if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self.state = TreeState.ERROR
                         response.tree_state = TreeState.ERROR
                         response.success = False
                         self.get_logger().error(
@@ -1409,9 +1452,11 @@ class TreeExecManager:
                             f"IDLE nor PAUSED, but {state}"
                         )
                         response.error_message = "Failed to untick root node."
+                        self.publish_state()
                         return response
                 else:
                     self.get_logger().info("Unticking a tree with no nodes.")
+                    self.state = TreeState.IDLE
                     response.tree_state = TreeState.IDLE
                     response.success = True
 
-- 
2.43.0


From 66adfbc17cca66250c79030cc778b1817ade2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 22/53] fix: a tick thread that ends while a command is decided
 is not started again

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 0d60cc5..6644022 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1119,7 +1119,7 @@ class TreeExecManager:
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
-        if self._tick_thread and self._tick_thread.is_alive():
+        if self._tick_thread and self._tick_thread.ident is not None:
             response.success = False
             response.error_message = (
                 "Tried to tick when tree is already running, aborting"
@@ -1190,7 +1190,7 @@ class TreeExecManager:
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
-        if self._tick_thread and self._tick_thread.is_alive():
+        if self._tick_thread and self._tick_thread.ident is not None:
             response.success = False
             response.error_message = (
                 "Tried to start periodic ticking when tree is already running, aborting"
@@ -1238,7 +1238,7 @@ class TreeExecManager:
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
-        if self._tick_thread and self._tick_thread.is_alive():
+        if self._tick_thread and self._tick_thread.ident is not None:
             response.success = False
             response.error_message = "Tried to reset tree while it is running, aborting"
             response.tree_state = self.state
@@ -1318,8 +1318,9 @@ class TreeExecManager:
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
         response.success = False
+        tree_state = self.state
         if self._tick_thread is not None:
-            is_ticking = self.state in [TreeState.TICKING, TreeState.STOP_REQUESTED]
+            is_ticking = tree_state in [TreeState.TICKING, TreeState.STOP_REQUESTED]
             if not is_ticking and self._tick_thread.is_alive():
                 self._tick_thread.join(0.5)
                 if self._tick_thread.is_alive():
@@ -1332,11 +1333,11 @@ class TreeExecManager:
                     return response
 
         # Make a new tick thread if there isn't one or the old one has been
-        # successfully joined.
+        # successfully joined. A running tick thread might end at any time, but
+        # the command is decided for a ticking tree.
         if self._tick_thread is None or not self._tick_thread.is_alive():
             self._tick_thread = Thread(target=self.tick_report_exceptions)
-
-        tree_state = self.state
+            tree_state = self.state
 
         # Check for error state and abort if command is not SHUTDOWN -
         # if it is, we fall through to the if below and shut down the
-- 
2.43.0


From 43679db8c0fb34cce7a52ab9e9e00f5885199d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 23/53] fix: the cost of a parallel has no bound if that of a
 contributing child has none

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 50 ++++++++++++++++++---------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 5e7ab2c..06bc24d 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -188,6 +188,9 @@ class Parallel(FlowControl):
         # respective bound (ascending for the lower bounds, descending
         # for the upper bounds) and then summing the first
         # "needed_successes" values from the sorted array.
+        #
+        # A child without a bound comes first, its cost might be lower
+        # (or higher) than that of any other child.
 
         child_bounds_results = [child.calculate_utility() for child in self.children]
         bounds = UtilityBounds()
@@ -217,9 +220,10 @@ class Parallel(FlowControl):
 
         success_threshold = needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_success, b.lower_bound_success),
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -229,7 +233,9 @@ class Parallel(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_success, b.upper_bound_success),
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -250,9 +256,10 @@ class Parallel(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_failure, b.lower_bound_failure),
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -262,7 +269,9 @@ class Parallel(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_failure, b.upper_bound_failure),
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
@@ -428,6 +437,9 @@ class ParallelFailureTolerance(FlowControl):
         # respective bound (ascending for the lower bounds, descending
         # for the upper bounds) and then summing the first
         # "needed_successes" values from the sorted array.
+        #
+        # A child without a bound comes first, its cost might be lower
+        # (or higher) than that of any other child.
         child_bounds_results = [child.calculate_utility() for child in self.children]
         bounds = UtilityBounds()
         failures = [
@@ -456,9 +468,10 @@ class ParallelFailureTolerance(FlowControl):
 
         success_threshold = needed_successes
 
-        best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
-            :success_threshold
-        ]
+        best_success_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_success, b.lower_bound_success),
+        )[:success_threshold]
         bounds.has_lower_bound_success = all(
             (b.has_lower_bound_success for b in best_success_group)
         )
@@ -468,7 +481,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_success_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_success
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_success, b.upper_bound_success),
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
             (b.has_upper_bound_success for b in worst_success_group)
@@ -489,9 +504,10 @@ class ParallelFailureTolerance(FlowControl):
         # The minimum number of child failures for an overall Parallel failure
         failure_threshold = 1 + (len(self.children) - success_threshold)
 
-        best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
-            :failure_threshold
-        ]
+        best_failure_group = sorted(
+            child_bounds,
+            key=lambda b: (b.has_lower_bound_failure, b.lower_bound_failure),
+        )[:failure_threshold]
         bounds.has_lower_bound_failure = all(
             (b.has_lower_bound_failure for b in best_failure_group)
         )
@@ -501,7 +517,9 @@ class ParallelFailureTolerance(FlowControl):
             )
 
         worst_failure_group = sorted(
-            child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
+            child_bounds,
+            reverse=True,
+            key=lambda b: (not b.has_upper_bound_failure, b.upper_bound_failure),
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
             (b.has_upper_bound_failure for b in worst_failure_group)
-- 
2.43.0


From 7efa263c8a8a2899dff618a857183ed2b5cd695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 24/53] fix: the cost of a failing ParallelFailureTolerance
 depends on the tolerated failures

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 06bc24d..f659ecd 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -416,6 +416,11 @@ class ParallelFailureTolerance(FlowControl):
                 return Err(e)
             case Ok(i):
                 needed_successes = i
+        match self.inputs.get_value_as("tolerate_failures", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                tolerate_failures = i
         if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
@@ -496,13 +501,13 @@ class ParallelFailureTolerance(FlowControl):
         # Now we do the same for the failures - the only difference
         # here is that failure_threshold is
         #
-        # 1 + (num_children - success_threshold)
+        # 1 + tolerate_failures
         #
-        # because of the semantics of Parallel explained in the class
-        # docstring
+        # because of the semantics of ParallelFailureTolerance explained in
+        # the class docstring
 
-        # The minimum number of child failures for an overall Parallel failure
-        failure_threshold = 1 + (len(self.children) - success_threshold)
+        # The minimum number of child failures for an overall failure
+        failure_threshold = 1 + tolerate_failures
 
         best_failure_group = sorted(
             child_bounds,
-- 
2.43.0


From f8b4cf103cf1b49965e4aafc253ee441a8d36e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 25/53] fix: a list whose elements were given run-time only is
 compatible with itself

---
 ros_bt_py/ros_bt_py/data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 83481eb..628fe47 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -804,8 +804,10 @@ class IterableContainer(BuiltinContainer[ITER]):
         if element_type is not None:
             self._element_type = element_type
 
-        # Force element_type to accept dynamic values
+        # Force element_type to accept dynamic values,
+        #   its own static/dynamic attributes must not affect compatibility
         self._element_type.allow_dynamic = True
+        self._element_type.allow_static = True
         self._element_type.is_static = False
 
         if max_length is not None:
-- 
2.43.0


From bab3c9d8664f6d95ce850be0e5a5954c3e9e4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 26/53] fix: an action whose goal did not succeed fails

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..07b8f9e 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,6 +33,7 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
+from action_msgs.msg import GoalStatus
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
 from rclpy.time import Time
@@ -180,6 +181,9 @@ class ActionBase(Leaf):
             self._running_goal_handle = None
             self._running_goal_future = None
             self._internal_state = ActionStates.FINISHED
+            if result.status != GoalStatus.STATUS_SUCCEEDED:
+                self.logwarn(f"Action ended with status {result.status}!")
+                return Ok(BTNodeState.FAILED)
             self.loginfo("Action succeeded, publishing result!")
             return self.set_result_outputs(result.result)
 
-- 
2.43.0


From 4246adc5bfa4293a7ab9a9b45546e4245f8bd848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 27/53] fix: an action whose goal is rejected fails

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 07b8f9e..d69982d 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -292,8 +292,12 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
                 self.logwarn("Action goal was rejeced by the server!")
+                self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
 
-- 
2.43.0


From 9aded9fc390175913d94b324b8858588bb330101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 28/53] fix: action and publisher nodes can be shut down before
 they are set up

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 ros_bt_py/ros_bt_py/ros_nodes/topic.py  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index d69982d..6edf3c7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -89,7 +89,7 @@ class ActionBase(Leaf):
     _action_type: type
     _action_client: Optional[ActionClient] = None
     _feedback = None
-    _internal_state: ActionStates
+    _internal_state: ActionStates = ActionStates.IDLE
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..7d41be4 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -463,6 +463,8 @@ class TopicMemorySubscriber(Leaf):
     )
 )
 class TopicPublisher(Leaf):
+    _publisher = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             error_msg = f"{self.name} does not have a refrence to a ROS node!"
-- 
2.43.0


From 1c1010b4627bd50021312aea21d92cca65e81bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 29/53] fix: the feedback outputs of an action are those of its
 feedback type

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 6edf3c7..7ccf1fc 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -518,7 +518,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From b51a76981fcad0bd159c32151b39cadfde35bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 30/53] fix: an action whose goal changes before it is accepted
 cancels it

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 7ccf1fc..0b3b7eb 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -299,8 +299,15 @@ class ActionBase(Leaf):
                 self.logwarn("Action goal was rejeced by the server!")
                 self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
+                if self._input_goal is not None:
+                    # The goal was replaced in the meantime
+                    return Ok(BTNodeState.RUNNING)
                 return Ok(BTNodeState.FAILED)
 
+            if self._input_goal is not None:
+                # The goal was replaced in the meantime
+                return self._do_tick_cancel_running_goal()
+
             self._running_goal_start_time = self.ros_node.get_clock().now()
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
@@ -333,6 +340,7 @@ class ActionBase(Leaf):
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
+            ActionStates.WAITING_FOR_GOAL_ACCEPTANCE,
             ActionStates.WAITING_FOR_GOAL_CANCELLATION,
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
-- 
2.43.0


From d25d745842ff56be8d8225c0dcdba9bcb2297ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 31/53] fix: an action that timed out or changed its goal is
 cancelled when it is unticked

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 0b3b7eb..7d54b86 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -394,7 +394,10 @@ class ActionBase(Leaf):
             return Ok(BTNodeState.RUNNING)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
-- 
2.43.0


From 5c71438e999e3fd8d9846b2dad307b4e978e8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 32/53] fix: an action sends its goal again after it was
 unticked

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 7d54b86..80cb7b4 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -147,6 +147,7 @@ class ActionBase(Leaf):
 
         self._internal_state = ActionStates.IDLE
 
+        self._input_goal = None
         self._new_goal_request_future = None
         self._running_goal_handle = None
         self._running_goal_future = None
@@ -330,8 +331,11 @@ class ActionBase(Leaf):
                 return Err(e)
             case Ok(b):
                 updated = b
-        # If the current state is idle, this is the first tick after setup, reset or untick
-        if updated:
+        # If the current state is idle and there is no goal to send,
+        # this is the first tick after setup, reset or untick
+        if updated or (
+            self._internal_state == ActionStates.IDLE and self._input_goal is None
+        ):
             match self.get_goal():
                 case Err(e):
                     return Err(e)
@@ -403,6 +407,7 @@ class ActionBase(Leaf):
                 return cancel_result
 
         self._last_goal_time = None
+        self._input_goal = None
         self._running_goal_future = None
         self._running_goal_handle = None
         self._cancel_goal_future = None
-- 
2.43.0


From fdceafe3afa2ad010a881bf5bdb239488af5d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 33/53] fix: an action whose name changes while it is idle uses
 the new name

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 80cb7b4..333a979 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -349,6 +349,15 @@ class ActionBase(Leaf):
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
 
+        if (
+            updated
+            and self._internal_state == ActionStates.IDLE
+            and self._action_client is not None
+        ):
+            # The action name may have changed since the client was created
+            self._action_client.destroy()
+            self._action_client = None
+
         if self._action_client is None:
             match self.inputs.get_value_as("action_name", str):
                 case Err(e):
-- 
2.43.0


From 8ff6afcf72cb61be4491ec9cfe641a9ba38dcf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 34/53] fix: a goal that is given up before it is accepted is
 cancelled

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 55 +++++++++++++++++++++----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 333a979..57f7fe7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -28,6 +28,7 @@
 
 from threading import Lock
 import abc
+from functools import partial
 from typing import Optional, Any
 from enum import Enum
 
@@ -90,6 +91,9 @@ class ActionBase(Leaf):
     _action_client: Optional[ActionClient] = None
     _feedback = None
     _internal_state: ActionStates = ActionStates.IDLE
+    _new_goal_request_future = None
+    # The number of unanswered goal requests that were given up, see `_abandon_goal_request`
+    _abandoned_requests: Optional[dict[ActionClient, int]] = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
@@ -143,6 +147,8 @@ class ActionBase(Leaf):
                 self._action_type = t
 
         self._lock = Lock()
+        if self._abandoned_requests is None:
+            self._abandoned_requests = {}
         self._feedback = None
 
         self._internal_state = ActionStates.IDLE
@@ -325,6 +331,43 @@ class ActionBase(Leaf):
 
         return Ok(BTNodeState.RUNNING)
 
+    def _abandon_goal_request(self) -> None:
+        """Make sure that a goal which isn't accepted yet is cancelled as soon as it is."""
+        future = self._new_goal_request_future
+        client = self._action_client
+        if future is None or client is None:
+            return
+        self._new_goal_request_future = None
+        with self._lock:
+            self._abandoned_requests[client] = (
+                self._abandoned_requests.get(client, 0) + 1
+            )
+        future.add_done_callback(partial(self._cancel_abandoned_goal, client))
+
+    def _cancel_abandoned_goal(self, client: ActionClient, future) -> None:
+        goal_handle = future.result()
+        if goal_handle is not None and goal_handle.accepted:
+            goal_handle.cancel_goal_async()
+        with self._lock:
+            self._abandoned_requests[client] -= 1
+            if self._abandoned_requests[client] > 0:
+                return
+            del self._abandoned_requests[client]
+            needed = client is self._action_client
+        if not needed:
+            client.destroy()
+
+    def _release_client(self) -> None:
+        client = self._action_client
+        if client is None:
+            return
+        with self._lock:
+            self._action_client = None
+            # The last abandoned request destroys the client otherwise
+            needed = client in self._abandoned_requests
+        if not needed:
+            client.destroy()
+
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.inputs.any_updated("action_name", *self.goal_fields):
             case Err(e):
@@ -355,8 +398,7 @@ class ActionBase(Leaf):
             and self._action_client is not None
         ):
             # The action name may have changed since the client was created
-            self._action_client.destroy()
-            self._action_client = None
+            self._release_client()
 
         if self._action_client is None:
             match self.inputs.get_value_as("action_name", str):
@@ -399,9 +441,7 @@ class ActionBase(Leaf):
         if self._input_goal is None:
             return Ok(self.state)
         else:
-            if self._action_client is not None:
-                self._action_client.destroy()
-                self._action_client = None
+            self._release_client()
 
             self._internal_state = ActionStates.IDLE
             return Ok(BTNodeState.RUNNING)
@@ -414,6 +454,7 @@ class ActionBase(Leaf):
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
+        self._abandon_goal_request()
 
         self._last_goal_time = None
         self._input_goal = None
@@ -431,9 +472,7 @@ class ActionBase(Leaf):
                 return Err(e)
             case Ok(_):
                 pass
-        if self._action_client is not None:
-            self._action_client.destroy()
-            self._action_client = None
+        self._release_client()
         return Ok(BTNodeState.IDLE)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 8c15edd2d3308faa8ae2cf106dc7fd8cf2c313cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 35/53] fix: feedback left over from a replaced goal is dropped

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 57f7fe7..3652eb7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -274,6 +274,8 @@ class ActionBase(Leaf):
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
             return Err(BehaviorTreeException("No action client available"))
+        # What is left of the last goal's feedback doesn't belong to this one
+        self._feedback = None
         self._new_goal_request_future = self._action_client.send_goal_async(
             goal=self._input_goal, feedback_callback=self._feedback_cb
         )
-- 
2.43.0


From 277bb1592e257b83df2e052e644cd6e7426aea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 36/53] fix: WaitForService can be shut down before it is set
 up

---
 ros_bt_py/ros_bt_py/ros_nodes/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/service.py b/ros_bt_py/ros_bt_py/ros_nodes/service.py
index 4198e9e..4fa34ab 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/service.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/service.py
@@ -366,6 +366,8 @@ class Service(ServiceBase):
 class WaitForService(Leaf):
     """Wait for a service to be available, fails if this wait times out."""
 
+    _service_client: Optional[Client] = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             self.logerr("No ROS node reference available!")
@@ -382,7 +384,7 @@ class WaitForService(Leaf):
             case Ok(f):
                 self._wait_for_service_seconds = f
 
-        self._service_client: Optional[Client] = None
+        self._service_client = None
         self._last_service_call_time: Optional[Time] = None
         return Ok(BTNodeState.IDLE)
 
-- 
2.43.0


From b4c0a423b09003445986678c81d13c4aa81d4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 37/53] fix: messages of a dropped subscription are not
 delivered

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 27 +++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index 7d41be4..35cde8a 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -35,6 +35,7 @@ from rclpy.qos import (
     QoSProfile,
     QoSReliabilityPolicy,
 )
+from functools import partial
 from threading import Lock
 from rclpy.time import Time
 
@@ -79,6 +80,8 @@ class TopicSubscriber(Leaf):
     """
 
     _lock = Lock()
+    # Counts the subscriptions, only the current one may deliver messages
+    _subscription_number = 0
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
@@ -89,8 +92,10 @@ class TopicSubscriber(Leaf):
         self._msg = None
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
+    def _callback(self, subscription_number, msg):
         with self._lock:
+            if subscription_number != self._subscription_number:
+                return
             self._msg = msg
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
@@ -150,7 +155,7 @@ class TopicSubscriber(Leaf):
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=partial(self._callback, self._subscription_number),
                 qos_profile=qos_profile,
             )
 
@@ -168,7 +173,9 @@ class TopicSubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
+        with self._lock:
+            self._subscription_number += 1
+            self._msg = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
@@ -271,6 +278,8 @@ class TopicMemorySubscriber(Leaf):
     """
 
     _lock = Lock()
+    # Counts the subscriptions, only the current one may deliver messages
+    _subscription_number = 0
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
@@ -287,8 +296,10 @@ class TopicMemorySubscriber(Leaf):
                 self._memory_delay = f
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
+    def _callback(self, subscription_number, msg):
         with self._lock:
+            if subscription_number != self._subscription_number:
+                return
             self._msg = msg
             self._msg_timestamp = self.ros_node.get_clock().now()
 
@@ -349,7 +360,7 @@ class TopicMemorySubscriber(Leaf):
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=partial(self._callback, self._subscription_number),
                 qos_profile=qos_profile,
             )
 
@@ -370,8 +381,10 @@ class TopicMemorySubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
-        self._msg_timestamp = None
+        with self._lock:
+            self._subscription_number += 1
+            self._msg = None
+            self._msg_timestamp = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
-- 
2.43.0


From 28acabaf5f657a255e52620672830c63c54af80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 38/53] fix: trees are only saved below the storage folder

---
 ros_bt_py/ros_bt_py/package_manager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..9b94373 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -154,6 +154,12 @@ class PackageManager(object):
                 os.path.join(request.storage_path, request.filepath)
             )
 
+            storage_path = os.path.abspath(request.storage_path)
+            if os.path.commonpath([storage_path, save_filepath]) != storage_path:
+                response.success = False
+                response.error_message = "File path is outside of the storage folder!"
+                return response
+
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
             path, filename = os.path.split(split_save_filepath)
 
@@ -191,15 +197,15 @@ class PackageManager(object):
             # Set path to blank, this value should not be persisted
             request.tree.path = ""
 
+            msg = rosidl_runtime_py.message_to_yaml(request.tree)
             with open(split_save_filepath, "w") as save_file:
                 save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-                msg = rosidl_runtime_py.message_to_yaml(request.tree)
                 save_file.write(msg)
             response.file_path = split_save_filepath
             response.success = True
             return response
 
-        except IOError:
+        except (IOError, ValueError):
             response.success = False
             response.error_message = f'IOError on file: "{request.filepath}"'
 
-- 
2.43.0


From 5ab2b8ee07085a14794f409d44edd1d807b37337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 39/53] fix: Convert can be set up

It read its types as classes and an input that does not exist.
---
 ros_bt_py/ros_bt_py/nodes/maths.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..f67389d 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -35,6 +35,8 @@ from typeguard import typechecked
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
+    GENERIC_TYPE_MAP,
+    IDENTIFIER_KEY,
     GenericType,
     ReferenceType,
     StringType,
@@ -70,6 +72,15 @@ def get_conversion(
         )
 
 
+@typechecked
+def get_python_type(type_dict: dict) -> Result[type, BehaviorTreeException]:
+    """Return the type whose :obj:`GENERIC_TYPE_MAP` entry has the same identifier."""
+    for type_, template in GENERIC_TYPE_MAP.items():
+        if template[IDENTIFIER_KEY] == type_dict[IDENTIFIER_KEY]:
+            return Ok(type_)
+    return Err(BehaviorTreeException(f"Unknown type {type_dict}"))
+
+
 @define_bt_node(
     NodeConfig(
         inputs={
@@ -91,17 +102,17 @@ class Convert(Leaf):
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
+            Ok((i, o))
+            for input_type in self.inputs.get_value_as("input_type", dict)
+            for output_type in self.inputs.get_value_as("output_type", dict)
+            for i in get_python_type(input_type)
+            for o in get_python_type(output_type)
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
+            case Ok((i, o)):
                 self.in_type = i
                 self.out_type = o
-                self.clamp = c
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
-- 
2.43.0


From ec5ecd05ad30831f0a2de381126a6ebcdce5cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 40/53] fix: an undefined operation is an error, not an
 exception

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 40 +++++++++++++++++-------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index f67389d..8981d8a 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -215,16 +215,19 @@ class Operation(Leaf):
         return Ok(BTNodeState.IDLE)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        return (
-            do(
-                Ok(BINARY_OPERATIONS[s](a, b))
-                for s in self.inputs.get_value_as("operator", str)
-                for a in self.inputs.get_value("a")
-                for b in self.inputs.get_value("b")
+        try:
+            return (
+                do(
+                    Ok(BINARY_OPERATIONS[s](a, b))
+                    for s in self.inputs.get_value_as("operator", str)
+                    for a in self.inputs.get_value("a")
+                    for b in self.inputs.get_value("b")
+                )
+                .and_then(lambda val: self.outputs.set_value("result", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
             )
-            .and_then(lambda val: self.outputs.set_value("result", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        except (ArithmeticError, MemoryError, TypeError, ValueError) as e:
+            return Err(BehaviorTreeException(f"Operation is undefined: {e}"))
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
@@ -315,15 +318,18 @@ class UnaryOperation(Leaf):
         return Ok(BTNodeState.IDLE)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        return (
-            do(
-                Ok(UNARY_OPERATIONS[s](i))
-                for s in self.inputs.get_value_as("operator", str)
-                for i in self.inputs.get_value("in")
+        try:
+            return (
+                do(
+                    Ok(UNARY_OPERATIONS[s](i))
+                    for s in self.inputs.get_value_as("operator", str)
+                    for i in self.inputs.get_value("in")
+                )
+                .and_then(lambda val: self.outputs.set_value("result", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
             )
-            .and_then(lambda val: self.outputs.set_value("result", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        except (ArithmeticError, MemoryError, TypeError, ValueError) as e:
+            return Err(BehaviorTreeException(f"Operation is undefined: {e}"))
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
-- 
2.43.0


From 44145e89667b41e78ea4286b1796c70718fcfbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 41/53] fix: SetAttr sets the attribute

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..88491be 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -105,16 +105,20 @@ class SetAttr(Leaf):
             rsetattr(obj, attr, val)
             return obj
 
-        return (
-            do(
-                Ok(set_and_return(o, n, v))
-                for o in self.inputs.get_value("object")
-                for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+        try:
+            return (
+                do(
+                    Ok(set_and_return(o, n, v))
+                    for o in self.inputs.get_value("object")
+                    for n in self.inputs.get_value_as("attr_name", str)
+                    for v in self.inputs.get_value("attr_value")
+                )
+                .and_then(lambda val: self.outputs.set_value("new_object", val))
+                .map(lambda _: BTNodeState.SUCCEEDED)
             )
-            .and_then(lambda val: self.outputs.set_value("new_object", val))
-            .map(lambda _: BTNodeState.SUCCEEDED)
-        )
+        except (AttributeError, AssertionError) as e:
+            self.logwarn(str(e))
+            return Ok(BTNodeState.FAILED)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
-- 
2.43.0


From b38c010e9c6f70c1fa79b73203900adc5315555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 42/53] fix: EnumFields can be made

---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From bad083843f99956403b5df9db95db3258b3c8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 43/53] fix: a file that cannot be decoded, or of an unknown
 package, is not loaded

---
 ros_bt_py/ros_bt_py/nodes/file.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/file.py b/ros_bt_py/ros_bt_py/nodes/file.py
index 6c1ecf4..8416d0a 100644
--- a/ros_bt_py/ros_bt_py/nodes/file.py
+++ b/ros_bt_py/ros_bt_py/nodes/file.py
@@ -62,9 +62,12 @@ def load_file(path):
         file_path = path[len("file://") :]
     elif path.startswith("package://"):
         package_name = path[len("package://") :].split("/", 1)[0]
-        package_path = ament_index_python.get_package_share_directory(
-            package_name=package_name
-        )
+        try:
+            package_path = ament_index_python.get_package_share_directory(
+                package_name=package_name
+            )
+        except (LookupError, ValueError) as ex:
+            raise LoadFileError(f"Package {package_name} not found: {str(ex)}")
         file_path = package_path + path[len("package://") + len(package_name) :]
     else:
         raise LoadFileError(
@@ -79,7 +82,7 @@ def load_file(path):
     with data_file:
         try:
             data = yaml.safe_load(data_file)
-        except yaml.YAMLError as ex:
+        except (yaml.YAMLError, ValueError) as ex:
             raise LoadFileError(f"Yaml error in file {file_path}: {str(ex)}")
     return data
 
-- 
2.43.0


From a10f2a6cb73887557721c5a26c42b3c65edb4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 44/53] fix: the standard conversions are applied to formatted
 values

---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..144476a 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From 87a2abb27ec345c989cbe6c1c3b384ed46913464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 45/53] fix: FormatStringList reads its list

---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 144476a..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -189,7 +189,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From 5fadadb483985ebb4439df6f5e9b056f28195133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:28 +0000
Subject: [PATCH 46/53] fix: shutting down with setup-and-shutdown kept the
 published subtrees out of the messages

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 6644022..39afb30 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1361,8 +1361,6 @@ class TreeExecManager:
                 self.get_logger().warn(response.error_message)
                 return response
 
-            if self.subtree_manager:
-                self.subtree_manager.clear_subtrees()
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
-- 
2.43.0


From 4e4e2b78fc51695dd9ba9baa7c60902c26a5b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:28 +0000
Subject: [PATCH 47/53] fix: a node that was morphed or given other options
 still published its former subtree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 6fa29f7..b1ac271 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -388,6 +388,9 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[node_id]
         request.new_node.node_id = uuid_to_ros(node_id)
 
+        # The new node might not be a subtree, and has no state yet if it is one
+        self.subtree_manager.remove_subtree(node_id)
+
         match self.instantiate_node_from_msg(request.new_node, self.ros_node):
             case Err(e):
                 response.success = False
@@ -547,6 +550,9 @@ class TreeEditManager(TreeExecManager):
         node_msg.inputs = list(new_inputs.values())
         if request.rename_node:
             node_msg.name = request.new_name
+        # The new instance of a subtree has no state yet
+        self.subtree_manager.remove_subtree(node_id)
+
         match self.instantiate_node_from_msg(node_msg, ros_node=self.ros_node):
             case Err(e):
                 response.success = False
-- 
2.43.0


From 8033e558fd56e3f8a868618351b6c6436dafadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:28 +0000
Subject: [PATCH 48/53] fix: the tree answered by get_subtree had no wirings
 and no public data

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index b1ac271..748eec8 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1040,6 +1040,20 @@ class TreeEditManager(TreeExecManager):
                 )
                 return response
             case Ok((s, _, _)):
+                # The wirings belong to the manager, nodes don't know them
+                subtree_ids = {node.node_id for node in s.nodes}
+                s.data_wirings = []
+                s.public_inputs = []
+                s.public_outputs = []
+                for wiring in self.wirings:
+                    has_source = wiring.source.node_id in subtree_ids
+                    has_target = wiring.target.node_id in subtree_ids
+                    if has_source and has_target:
+                        s.data_wirings.append(wiring)
+                    elif has_source:
+                        s.public_outputs.append(wiring.source)
+                    elif has_target:
+                        s.public_inputs.append(wiring.target)
                 response.subtree = s
         response.success = True
         return response
-- 
2.43.0


From 64c4dbd613c7dc55006c36d94e22f15f07fe767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 49/53] fix: collecting node diagnostics could fail a tick, and
 did not name the phase before an operation

---
 ros_bt_py/ros_bt_py/debug_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 77cde21..0acc32a 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -118,6 +118,7 @@ class DebugManager(object):
                 "stamp": self._ros_node.get_clock().now(),
                 "module": type(node_instance).__module__,
                 "node_class": type(node_instance).__name__,
+                "state": self.diagnostics_state[state][0],
                 "path": [],
             }
 
@@ -134,7 +135,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Nothing is known about an operation that started before the collection
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = self.diagnostics_state[state][1]
             diagnostics["stamp"] = self._ros_node.get_clock().now()
             if self.publish_node_diagnostics:
@@ -180,7 +182,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Nothing is known about an operation that started before the collection
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = "POST_TICK"
             diagnostics["stamp"] = self._ros_node.get_clock().now()
 
-- 
2.43.0


From 4edbfac40de0e49075f64c1832feebd06ccdbd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 50/53] fix: the diagnostics status did not carry the name of
 the tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 2 ++
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 748eec8..7940242 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -259,6 +259,8 @@ class TreeEditManager(TreeExecManager):
     ) -> ChangeTreeName.Response:
         """Change the name of the currently loaded tree."""
         self.name = request.name
+        if self.publish_diagnostic is not None:
+            self.set_diagnostics_name()
 
         response.success = True
 
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 39afb30..a5fbaf8 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -569,6 +569,7 @@ class TreeExecManager:
             case Ok(r_id):
                 root = self.nodes.get(r_id)
         if root is not None:
+            self.diagnostic_status.name = root.name
             self.get_logger().warn(
                 "No tree name was found. Diagnostics data from the behavior tree will be"
                 f"published under the name of the root_node: {self.diagnostic_status.name}",
@@ -1039,7 +1040,7 @@ class TreeExecManager:
 
         response.success = True
         self.get_logger().info("Successfully loaded tree")
-        if self.publish_diagnostic is None:
+        if self.publish_diagnostic is not None:
             self.set_diagnostics_name()
         return response
 
-- 
2.43.0


From edc9e0501cfc6c80703c88b724a0c69a950ebdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 51/53] fix: RosParam raised for a declared parameter without a
 value instead of using its default

---
 ros_bt_py/ros_bt_py/ros_nodes/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/param.py b/ros_bt_py/ros_bt_py/ros_nodes/param.py
index 67e61f3..45e6ec7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/param.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/param.py
@@ -74,7 +74,7 @@ class RosParam(Leaf):
         if not self.ros_node.has_parameter(param_name):
             return Ok(BTNodeState.FAILED)
         else:
-            param = self.ros_node.get_parameter(param_name)
+            param = self.ros_node.get_parameter_or(param_name)
             param_value = param.value
             if param_value is None:
                 return (
-- 
2.43.0


From 48eb92353a755e6616e4d4ace1a2c039545d9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 52/53] fix: setting a float from an integer beyond its range
 raised OverflowError

---
 ros_bt_py/ros_bt_py/data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 628fe47..f5936e0 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -629,7 +629,10 @@ class FloatType(NumericContainer[float]):
     def set_value(self, value: float | int) -> Result[None, str]:
         # Silently convert int to float
         if isinstance(value, int):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                return Err(f"Given value {value} is too large for a float")
         return super().set_value(value)
 
 
-- 
2.43.0


From 7d850aac3249a3fe82611936e67ee8f3fc16a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:24 +0000
Subject: [PATCH 53/53] fix: deserializing a number of more than 4300 digits
 raised ValueError

---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index f5936e0..e958198 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -360,7 +360,7 @@ class DataContainer(Generic[ANY], abc.ABC):
         """
         try:
             value = json.loads(ser_value)
-        except (json.JSONDecodeError, RecursionError) as e:
+        except (ValueError, RecursionError) as e:
             return Err(f"Serialized value {ser_value} is not valid: {e}")
         try:
             match self._deserialize_value(value):
-- 
2.43.0

