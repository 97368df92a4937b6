From cef36dace4f8c61a829d042beb90e43182c24680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 01/44] fix: group trace variants by event name instead of its
 colliding hash

---
 src/python/ficus/legacy/analysis/event_log_split.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_split.py b/src/python/ficus/legacy/analysis/event_log_split.py
index 5c7244a..86a6879 100644
--- a/src/python/ficus/legacy/analysis/event_log_split.py
+++ b/src/python/ficus/legacy/analysis/event_log_split.py
@@ -33,15 +33,15 @@ def split_log_by_traces(log: MyEventLog) -> list[list[MyTrace]]:
                     continue
 
                 all_groups_has_one_trace = False
-                hashes2traces = dict()
+                names2traces = dict()
                 for trace in group:
-                    hash_code = calculate_string_poly_hash(trace[index][concept_name])
-                    if hash_code in hashes2traces:
-                        hashes2traces[hash_code].append(trace)
+                    name = trace[index][concept_name]
+                    if name in names2traces:
+                        names2traces[name].append(trace)
                     else:
-                        hashes2traces[hash_code] = [trace]
+                        names2traces[name] = [trace]
 
-                for _, new_group in hashes2traces.items():
+                for _, new_group in names2traces.items():
                     new_groups.append(new_group)
 
             if all_groups_has_one_trace:
-- 
2.43.0


From 6eaeaa7fda03cbc875eaa2dc86addc69226279dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 02/44] fix: report tandem arrays whose base occurs earlier
 without repeating or collides by hash

---
 .../ficus/legacy/analysis/patterns/event_log_patterns.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index a0cb6e3..c35db51 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -30,13 +30,13 @@ def _find_maximal_tandem_arrays(traces: list[list[int]],
         tandem_arrays = []
         for length in range(2, max_tandem_array_length):
             for i in range(0, len(trace) - length):
-                sub_array_hash = calculate_poly_hash_for_collection(trace, i, i + length)
-                if sub_array_hash in visited:
+                sub_array = tuple(trace[i:i + length])
+                if sub_array in visited:
                     continue
 
-                visited.add(sub_array_hash)
                 candidate_tandem_array = _try_extract_tandem_array(trace, i, length)
                 if candidate_tandem_array is not None:
+                    visited.add(sub_array)
                     tandem_arrays.append(candidate_tandem_array)
 
         result.append(tandem_arrays)
-- 
2.43.0


From 79227723ba33751dee59e9d3756398758c70ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 03/44] fix: deduplicate repeat sets by their event classes
 instead of a colliding hash

---
 .../legacy/analysis/patterns/event_log_patterns.py    | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index c35db51..d0c4022 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -150,13 +150,12 @@ def _do_create_repeat_sets(hashes_traces: list[list[int]],
         for sub_array in trace_sub_arrays:
             start = sub_array.first_pos
             end = sub_array.first_pos + sub_array.length
-            sub_array_from_log = list(sorted(set(trace[start:end])))
-            sub_array_hash = calculate_poly_hash_for_collection(sub_array_from_log)
+            classes_set = tuple(sorted(set(trace[start:end])))
 
-            if sub_array_hash not in repeat_sets:
-                repeat_sets[sub_array_hash] = SubArrayWithTraceIndex(first_pos=start,
-                                                                     length=sub_array.length,
-                                                                     trace_index=index)
+            if classes_set not in repeat_sets:
+                repeat_sets[classes_set] = SubArrayWithTraceIndex(first_pos=start,
+                                                                  length=sub_array.length,
+                                                                  trace_index=index)
         index += 1
 
     return list(repeat_sets.values())
-- 
2.43.0


From a766189974b400e64a3d82915069864d47d58eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 04/44] fix: make the name hash that identifies event classes
 collision-free

---
 src/python/ficus/legacy/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 5cb0bda..0357c25 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -5,6 +5,8 @@ from typing import Any, Hashable, Callable
 
 mod = 10 ** 9 + 7
 p = 31
+# larger than any (1 + code point): different strings never share a hash, which is used as event class
+string_p = 0x110001
 concept_name = 'concept:name'
 time_timestamp = 'time:timestamp'
 lifecycle_transition = 'lifecycle:transition'
@@ -18,8 +20,8 @@ def calculate_string_poly_hash(s: str) -> int:
     hash_so_far = 0
     p_pow = 1
     for i in range(length):
-        hash_so_far = (hash_so_far + (1 + ord(s[i])) * p_pow) % mod
-        p_pow = (p_pow * p) % mod
+        hash_so_far = hash_so_far + (1 + ord(s[i])) * p_pow
+        p_pow = p_pow * string_p
 
     return hash_so_far
 
-- 
2.43.0


From 1c347b0f77d2d1d22543d3255cd2870cb321493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:07 +0000
Subject: [PATCH 05/44] fix: honour should_narrow_activity in the high level
 activity discovery parts

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..653bbad 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From 3a9af1daa0d5ca39dab5580851ff40dc8a577ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 06/44] fix: keep trace attributes and global values when
 copying traces and logs

---
 src/python/ficus/legacy/log/event_log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..e7c1e9a 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From eda3faa6c88b1ede56696a49541f6d2cd4834841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 07/44] fix: compare events, traces and logs by content instead
 of colliding hashes

---
 src/python/ficus/legacy/log/event_log.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index e7c1e9a..962d010 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -28,11 +28,14 @@ class MyEvent:
     def __str__(self):
         return str(self.payload)
 
+    def __repr__(self):
+        return str(self)
+
     def __hash__(self):
         return calculate_dict_hash(self.payload)
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return isinstance(other, MyEvent) and self.payload == other.payload
 
     def __copy__(self):
         return MyEvent(dict(self.payload))
@@ -67,7 +70,7 @@ class MyEventsSequence(Sequence):
         return calculate_poly_hash_for_collection(self.raw_events)
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return isinstance(other, MyEventsSequence) and self.raw_events == other.raw_events
 
     def __delitem__(self, key: int):
         del self.raw_events[key]
@@ -112,7 +115,12 @@ class MyEventLog(Sequence):
         return current_hash
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        return (isinstance(other, MyEventLog) and
+                self.traces == other.traces and
+                self.attributes == other.attributes and
+                self.extensions == other.extensions and
+                self.classifiers == other.classifiers and
+                self.properties == other.properties)
 
     def __getitem__(self, item: int) -> MyTrace:
         return self.traces[item]
-- 
2.43.0


From 520ea15313e2a0f399a5bbdda547abb412751f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:34 +0000
Subject: [PATCH 08/44] fix: keep trace attributes and header data when
 converting logs to pm4py

---
 src/python/ficus/legacy/log/pm4py_converters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/pm4py_converters.py b/src/python/ficus/legacy/log/pm4py_converters.py
index 137f920..cbe04a5 100644
--- a/src/python/ficus/legacy/log/pm4py_converters.py
+++ b/src/python/ficus/legacy/log/pm4py_converters.py
@@ -37,9 +37,14 @@ def my_event_to_pm4py_event(my_event: MyEvent):
 
 
 def to_pm4py_log(my_log: MyEventLog) -> EventLog:
-    log = EventLog()
+    log = EventLog(attributes=copy.deepcopy(my_log.attributes),
+                   extensions=copy.deepcopy(my_log.extensions),
+                   classifiers=copy.deepcopy(my_log.classifiers),
+                   omni_present=copy.deepcopy(my_log.global_values),
+                   properties=copy.deepcopy(my_log.properties))
+
     for my_trace in my_log:
-        trace = Trace()
+        trace = Trace(attributes=copy.deepcopy(my_trace.attributes))
         for my_event in my_trace:
             trace.append(my_event_to_pm4py_event(my_event))
 
-- 
2.43.0


From e398fc603fb86a36620682db8e4e9ac6e4952e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 09/44] fix: entropy filters stop when no event class can be
 removed and respect a limit of zero

---
 .../legacy/filtering/event_log_filters.py     | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index da52672..7db7bf2 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -39,7 +39,7 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
                                            untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_remove:
             return log
 
         if calculate_default_entropy_average(log, laplace) <= threshold:
@@ -47,17 +47,21 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_sum_entropy = next_removal_default_entropy_indirect(log, laplace, top_percent,
                                                                                 untouchable_event_func)
+        if min_event_name is None:
+            return log
+
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
 
 
 def _determine_next_event_to_remove_direct(log: MyEventLog,
                                            metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
     metrics_for_events = metric_func(log)
+    if len(metrics_for_events) == 0:
+        return None, 0
+
     event_name = max(metrics_for_events, key=metrics_for_events.get)
     return event_name, metrics_for_events[event_name]
 
@@ -68,17 +72,15 @@ def _do_filter_by_metric_direct(log: MyEventLog,
                                 max_events_to_delete: int = 1e9) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_delete:
             return log
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
 
-        if metric > threshold:
+        if event_name is not None and metric > threshold:
             print(f'Removing {event_name} with metric {metric}')
             log = remove_event_from_log(log, event_name)
             removed_events_count += 1
-            if removed_events_count == max_events_to_delete:
-                return log
         else:
             return log
 
@@ -98,6 +100,8 @@ def _do_filter_by_metric_direct_till_end(log: MyEventLog,
 
         metric_before_removal = sum(metric_func(log).values())
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            break
 
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((event_name, metric_before_removal))
@@ -191,6 +195,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
                                        untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
     while True:
+        if removed_events_count >= max_events_to_remove:
+            return log
+
         trace_counts = calculate_events_in_each_trace(log)
         info = create_log_information(log)
         positions = create_events_positions(log)
@@ -200,13 +207,13 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            return log
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
 
 
 def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
@@ -223,6 +230,8 @@ def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
         pos_entropy_before_removal = calculate_position_entropies_fast_sum(log, positions=positions)
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            break
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
-- 
2.43.0


From 95bad360c9ecf544f667ddc61daab0e1b49b20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:19 +0000
Subject: [PATCH 10/44] fix: read false boolean values of XES files as False

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..3f3fc00 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str) -> bool:
+    return value.strip().lower() in ('true', '1')
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From 41791133029e6f30ffa267f0ebe4df049d2131f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:19 +0000
Subject: [PATCH 11/44] fix: write log properties as readable XES attributes
 and keep the types of global values

---
 src/python/ficus/legacy/log/functions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 3f3fc00..329c170 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -80,8 +80,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
                 log.global_values[scope] = {}
 
             for global_child in child:
-                attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                if _is_value_tag(global_child):
+                    log.global_values[scope][global_child.attrib[const_attr_key]] = _parse_value_tag(global_child)
 
             continue
 
@@ -237,9 +237,7 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
@@ -293,7 +291,8 @@ def _check_if_default_value(log: MyEventLog,
     if key not in defaults[entity_name]:
         return False
 
-    return defaults[entity_name][key] == value
+    default_value = defaults[entity_name][key]
+    return type(default_value) is type(value) and default_value == value
 
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
-- 
2.43.0


From fa41e4079e02592a87ac92481fc3b11f30e33f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:19 +0000
Subject: [PATCH 12/44] fix: save XES files as UTF-8 and to paths without a
 directory

---
 src/python/ficus/legacy/log/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 329c170..eb4461c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -297,8 +297,11 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
-    with open(save_path, 'w') as fout:
+    directory = os.path.dirname(save_path)
+    if directory != '':
+        os.makedirs(directory, exist_ok=True)
+
+    with open(save_path, 'w', encoding='utf-8') as fout:
         fout.write(log_xes_string)
 
 
-- 
2.43.0


From b1521d9aa5c1e0660ecc835e0424a7db1ae5959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 13/44] fix: wrap event log info into a context value and keep
 absent markings absent

---
 src/python/ficus/grpc_pipelines/context_values.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index 7961876..f0e5cde 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -120,9 +120,9 @@ class EventLogInfo(ContextValue):
     traces_count: int
 
     def to_grpc_context_value(self) -> GrpcContextValue:
-        return GrpcEventLogInfo(events_count=self.events_count,
-                                traces_count=self.traces_count,
-                                event_classes_count=self.event_classes_count)
+        return GrpcContextValue(event_log_info=GrpcEventLogInfo(events_count=self.events_count,
+                                                                traces_count=self.traces_count,
+                                                                event_classes_count=self.event_classes_count))
 
 
 def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
@@ -162,8 +162,11 @@ def from_grpc_petri_net(grpc_petri_net: GrpcPetriNet) -> 'PetriNet':
         transition = from_grpc_transition(grpc_transition)
         petri_net.transitions[transition.id] = transition
 
-    petri_net.initial_marking = try_from_grpc_marking(grpc_petri_net.initial_marking)
-    petri_net.final_marking = try_from_grpc_marking(grpc_petri_net.final_marking)
+    if grpc_petri_net.HasField('initial_marking'):
+        petri_net.initial_marking = try_from_grpc_marking(grpc_petri_net.initial_marking)
+
+    if grpc_petri_net.HasField('final_marking'):
+        petri_net.final_marking = try_from_grpc_marking(grpc_petri_net.final_marking)
 
     return petri_net
 
-- 
2.43.0


From 54438128f5a65ee41e5e4f8039771b31d894f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 14/44] fix: run the inner pipeline of
 PrintEventlogInfoBeforeAfter and deliver its callbacks

---
 src/python/ficus/grpc_pipelines/util_parts.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..c1c7096 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,18 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.before_part = PrintEventLogInfo2()
+        self.after_part = PrintEventLogInfo2()
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
+        append_pipeline_value(config, const_pipeline, self._create_pipeline())
 
-        pipeline = Pipeline2(
-            PrintEventLogInfo2(),
-        )
+        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
 
-        for part in self.inner_pipeline.parts:
-            pipeline.parts.append(part)
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self._create_pipeline().append_parts_with_callbacks(parts)
 
-        pipeline.parts.append(PrintEventLogInfo2())
-
-        append_pipeline_value(config, const_pipeline, pipeline)
-
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+    def _create_pipeline(self) -> Pipeline2:
+        return Pipeline2(self.before_part, *self.inner_pipeline.parts, self.after_part)
-- 
2.43.0


From 37a31155354371ef4f8587083b76aebdaa2c66dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 15/44] fix: send the maximal tandem array length in
 DiscoverActivitiesUntilNoMore2

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..9e0d280 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -174,6 +174,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_adjusting_mode(config, const_adjusting_mode, self.adjusting_mode)
         append_uint32_value(config, const_activity_level, self.activity_level)
         append_uint32_value(config, const_events_count, self.min_events_count)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
         append_patterns_kind(config, const_patterns_kind, self.patterns_kind)
         append_patterns_discovery_strategy(config, const_patterns_discovery_strategy, self.strategy)
         append_uint32_value(config, const_min_events_in_activity, self.min_events_in_activity_count)
-- 
2.43.0


From ea26d1480fcd26dc6daef730a227bf559905b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 16/44] fix: keep the backend address in the initial context of
 the caller

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..9bda614 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -28,9 +28,8 @@ class Pipeline2:
         options = [('grpc.max_send_message_length', 512 * 1024 * 1024),
                    ('grpc.max_receive_message_length', 512 * 1024 * 1024)]
 
-        addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
-        if ficus_backend_addr_key in initial_context:
-            del initial_context[ficus_backend_addr_key]
+        initial_context = dict(initial_context)
+        addr = initial_context.pop(ficus_backend_addr_key, 'localhost:8080')
 
         with grpc.insecure_channel(addr, options=options) as channel:
             stub = GrpcBackendServiceStub(channel)
-- 
2.43.0


From 20c221d74ccd324e3ea8d6cb36c5b5e763af4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:54 +0000
Subject: [PATCH 17/44] fix: never hand out the colour of unrecognized events
 for a name

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 3 +--
 src/python/ficus/legacy/util.py                        | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 67be375..0b814df 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -304,8 +304,7 @@ def draw_placements_of_events(log: MyEventLog,
                               height_scale: int = 1,
                               plot_legend: bool = True):
     colors_provider = random_unique_color_provider_instance
-    colors_provider.used_colors.add((0, 0, 0))
-    default_color = '#000000'
+    default_color = default_drawing_color
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 0357c25..e95d8d9 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -81,9 +81,13 @@ class ColorsProvider:
         raise NotImplementedError()
 
 
+# drawn for everything that is not highlighted or recognized, never handed out for a name
+default_drawing_color = '#000000'
+
+
 class RandomUniqueColorsProvider(ColorsProvider):
     def __init__(self):
-        self.used_colors = set()
+        self.used_colors = {default_drawing_color}
 
     def next(self) -> (int, int, int):
         if len(self.used_colors) == 256 ** 3:
@@ -97,7 +101,7 @@ class RandomUniqueColorsProvider(ColorsProvider):
         return color
 
     def reset(self):
-        self.used_colors.clear()
+        self.used_colors = {default_drawing_color}
 
 
 random_unique_color_provider_instance = RandomUniqueColorsProvider()
-- 
2.43.0


From 5bb12af13da8914348d1a83d59e15a4ddd073e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 18/44] fix: do not reuse a cached colour for another name
 after the colours provider was reset

---
 src/python/ficus/legacy/analysis/event_log_analysis.py   | 4 ++--
 .../ficus/legacy/analysis/patterns/patterns_graphs.py    | 4 ++--
 src/python/ficus/legacy/util.py                          | 9 +++++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 0b814df..8b0e0d6 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -198,7 +198,7 @@ def _draw_traces_diversity_like_diagram(log: MyEventLog,
         colors = random_unique_color_provider_instance
 
         def generate_color(_: str):
-            return colors.next()
+            return next_color_for_new_name(colors, cached_colors)
 
         colors_provider = generate_color
 
@@ -311,7 +311,7 @@ def draw_placements_of_events(log: MyEventLog,
             if name in cached_colors:
                 return cached_colors[name]
 
-            cached_colors[name] = colors_provider.next()
+            cached_colors[name] = next_color_for_new_name(colors_provider, cached_colors)
             return cached_colors[name]
 
         return default_color
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccc894f..ccf2f1e 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -14,7 +14,7 @@ from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
 from ...log.event_log import MyEventLog
 from ...util import to_hex, calculate_poly_hash_for_collection, SingleColorProvider, \
-    random_unique_color_provider_instance
+    random_unique_color_provider_instance, next_color_for_new_name
 
 
 def draw_full_activity_diagram(log: MyEventLog,
@@ -94,7 +94,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
         if name == undefined_activity:
             return to_hex((0, 0, 0))
 
-        generated_color = real_colors_provider.next()
+        generated_color = next_color_for_new_name(real_colors_provider, cached_colors)
         cached_colors[name] = generated_color
         return generated_color
 
diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index e95d8d9..fd9e98a 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -107,6 +107,15 @@ class RandomUniqueColorsProvider(ColorsProvider):
 random_unique_color_provider_instance = RandomUniqueColorsProvider()
 
 
+def next_color_for_new_name(provider: ColorsProvider, cached_colors: dict[str, str]) -> str:
+    # the provider could have been reset since the colors were cached
+    color = provider.next()
+    while color in cached_colors.values():
+        color = provider.next()
+
+    return color
+
+
 class SingleColorProvider(ColorsProvider):
     def __init__(self):
         self.provider = random_unique_color_provider_instance
-- 
2.43.0


From 615553527bfe262d3b753c6a7b62f4c81603c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:33 +0000
Subject: [PATCH 19/44] fix: list the undefined activity in the legend when it
 only ends traces

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccf2f1e..9f5ce81 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -150,6 +150,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height,
                                      fc=colors_provider(undefined_activity))
+                ctx.names_to_rects[undefined_activity] = rect
                 patches.append(rect)
 
             ctx.drawer.add_collection(PatchCollection(patches, match_original=True))
-- 
2.43.0


From a494436bc63ef86999ddd28437b7b4cc1147fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:40 +0000
Subject: [PATCH 20/44] fix: colour activities and patterns in diagrams by what
 they are instead of a colliding hash

---
 .../legacy/analysis/patterns/patterns_graphs.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 9f5ce81..cd2914a 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -13,7 +13,7 @@ from ..common.common_models import GraphNode, SubArrayInEventLog
 from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_diversity_like_diagram_internal
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
 from ...log.event_log import MyEventLog
-from ...util import to_hex, calculate_poly_hash_for_collection, SingleColorProvider, \
+from ...util import to_hex, concept_name, SingleColorProvider, \
     random_unique_color_provider_instance, next_color_for_new_name
 
 
@@ -55,13 +55,9 @@ def _do_draw_activity_diagram(log: MyEventLog,
         for trace_activities in traces_activities:
             trace_dtos = []
             for activity in trace_activities:
-                events = activity.node.set_of_events
-                activity_hash = calculate_poly_hash_for_collection(list(sorted(events)))
-
                 trace_dtos.append(SubTraceDrawingDto(
                     activity.start_pos,
                     activity.length,
-                    activity_hash,
                     activity.node.name
                 ))
 
@@ -76,7 +72,6 @@ def _do_draw_activity_diagram(log: MyEventLog,
 class SubTraceDrawingDto:
     start_pos: int
     length: int
-    hash: int
     name: str
 
 
@@ -129,14 +124,14 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
 
                 activity_name = dto.name
-                if dto.hash not in activities_colors:
-                    activities_colors[dto.hash] = colors_provider(activity_name)
+                if activity_name not in activities_colors:
+                    activities_colors[activity_name] = colors_provider(activity_name)
 
                 activity_x_width = ctx.rect_width
                 if not draw_short_diagram:
                     activity_x_width *= dto.length
 
-                color = activities_colors[dto.hash]
+                color = activities_colors[activity_name]
                 rect = plt.Rectangle((current_x, current_y), activity_x_width, ctx.rect_height, fc=color)
                 ctx.names_to_rects[activity_name] = rect
                 patches.append(rect)
@@ -318,12 +313,10 @@ def draw_patterns(log: MyEventLog,
             trace_dtos = []
             for pattern in trace_patterns:
                 pattern_seq = trace[pattern.first_pos:(pattern.first_pos + pattern.length)]
-                pattern_hash = calculate_poly_hash_for_collection(pattern_seq)
                 trace_dtos.append(SubTraceDrawingDto(
                     pattern.first_pos,
                     pattern.length,
-                    pattern_hash,
-                    str(pattern_hash)
+                    activity_name_sep.join([event[concept_name] for event in pattern_seq])
                 ))
 
             dtos.append(trace_dtos)
-- 
2.43.0


From 30e5e2c39c6af8f1d811e45306e75008171609a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:11 +0000
Subject: [PATCH 21/44] fix: keep classes with a long common prefix apart in
 the legend of colours logs

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 8b0e0d6..4bcd241 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -128,7 +128,8 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
                                                  save_path: str = None,
                                                  plot_legend: bool = True,
                                                  height_scale: int = 1,
-                                                 width_scale: int = 1):
+                                                 width_scale: int = 1,
+                                                 max_legend_name_length: Optional[int] = None):
     rect_width = 1 * width_scale
     rect_height = 1 * height_scale
     y_delta_between_traces = 0
@@ -140,7 +141,7 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
 
     if plot_legend:
         ax.legend(ctx.names_to_rects.values(),
-                  ctx.names_to_rects.keys(),
+                  [name[:max_legend_name_length] for name in ctx.names_to_rects.keys()],
                   loc='upper center',
                   bbox_to_anchor=(0.5, -0.15),
                   fontsize=20)
@@ -250,7 +251,7 @@ def draw_colors_event_log(log: list[list[ColoredRectangle]],
             for colored_rect in trace:
                 width = ctx.rect_width * colored_rect.length
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height, fc=colored_rect.color.to_hex())
-                ctx.names_to_rects[colored_rect.name[:50] if len(colored_rect.name) > 50 else colored_rect.name] = rect
+                ctx.names_to_rects[colored_rect.name] = rect
                 patch_collection.append(rect)
                 current_x += width
 
@@ -264,7 +265,8 @@ def draw_colors_event_log(log: list[list[ColoredRectangle]],
                                                  save_path=save_path,
                                                  plot_legend=plot_legend,
                                                  height_scale=height_scale,
-                                                 width_scale=width_scale)
+                                                 width_scale=width_scale,
+                                                 max_legend_name_length=50)
 
 
 def draw_traces_diversity_diagram(log: MyEventLog,
-- 
2.43.0


From ceb1e869d189913a5a2c0d35496213360ad9e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:11 +0000
Subject: [PATCH 22/44] fix: draw diagrams of logs without traces

---
 src/python/ficus/legacy/analysis/event_log_analysis.py        | 4 ++--
 src/python/ficus/legacy/analysis/event_log_analysis_canvas.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 4bcd241..b716f2e 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -154,9 +154,9 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     ax.set_yticks(range(y_ticks_count))
 
     if isinstance(log, MyEventLog):
-        x_ticks_count = max([len(t) for t in log]) * width_scale + 1
+        x_ticks_count = max([len(t) for t in log], default=0) * width_scale + 1
     elif isinstance(log, list):
-        x_ticks_count = 0
+        x_ticks_count = width_scale
         for trace in log:
             trace_len = width_scale
             for colored_rect in trace:
diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
index c25928a..1968e39 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
@@ -59,7 +59,7 @@ def draw_colors_event_log_canvas(log: list[list[ColoredRectangle]],
 
 
 def _calculate_canvas_width(log: list[list[ColoredRectangle]]):
-    return max(map(lambda t: sum(map(lambda r: r.length, t)), log))
+    return max(map(lambda t: sum(map(lambda r: r.length, t)), log), default=0)
 
 
 def _draw_actual_traces_diversity_diagram(log: list[list[ColoredRectangle]],
-- 
2.43.0


From 6273fe73360958b717dd0fa473d090bcb0486415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:11 +0000
Subject: [PATCH 23/44] fix: save diagrams to paths without a directory

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index b716f2e..eb27814 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -182,7 +182,10 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     if save_path is None:
         current_figure.show()
     else:
-        os.makedirs(os.path.dirname(save_path), exist_ok=True)
+        save_directory = os.path.dirname(save_path)
+        if save_directory:
+            os.makedirs(save_directory, exist_ok=True)
+
         current_figure.savefig(save_path, bbox_inches='tight', dpi=150)
         plt.close(current_figure)
 
-- 
2.43.0


From 9bdafb315d972ce4647764315aeaa668c911e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:11 +0000
Subject: [PATCH 24/44] fix: respect the width scale in placement diagrams

---
 src/python/ficus/legacy/analysis/event_log_analysis.py      | 4 +++-
 .../ficus/legacy/analysis/patterns/patterns_graphs.py       | 6 ++++--
 .../ficus/legacy/pipelines/analysis/analysis_parts.py       | 3 ++-
 .../legacy/pipelines/analysis/patterns/patterns_parts.py    | 1 +
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index eb27814..7598f9d 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -307,7 +307,8 @@ def draw_placements_of_events(log: MyEventLog,
                               title: str = None,
                               save_path: str = None,
                               height_scale: int = 1,
-                              plot_legend: bool = True):
+                              plot_legend: bool = True,
+                              width_scale: int = 1):
     colors_provider = random_unique_color_provider_instance
     default_color = default_drawing_color
 
@@ -327,6 +328,7 @@ def draw_placements_of_events(log: MyEventLog,
                                         save_path=save_path,
                                         plot_legend=plot_legend,
                                         height_scale=height_scale,
+                                        width_scale=width_scale,
                                         colors_provider=generate_color)
 
 
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index cd2914a..97755fd 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -240,7 +240,8 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                     plot_legend: bool = False,
                                     title: str = None,
                                     height_scale: int = 1,
-                                    save_path: str = None):
+                                    save_path: str = None,
+                                    width_scale: int = 1):
     def draw_func(ctx: TraceDiversityLikeDiagramContext):
         color_provider = random_unique_color_provider_instance if use_different_colors else SingleColorProvider()
         undefined_color = to_hex((0, 0, 0))
@@ -270,7 +271,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                     current_x += width
 
             if last_draw_index < len(trace):
-                width = len(trace) - last_draw_index
+                width = (len(trace) - last_draw_index) * ctx.rect_width
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height, fc=undefined_color)
                 ctx.names_to_rects[undefined_activity_name] = rect
                 patches.append(rect)
@@ -283,6 +284,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                                  draw_func,
                                                  plot_legend=plot_legend,
                                                  height_scale=height_scale,
+                                                 width_scale=width_scale,
                                                  title=title,
                                                  save_path=save_path)
 
diff --git a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
index 2203601..c4c101e 100644
--- a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
@@ -103,7 +103,8 @@ class DrawPlacementOfEvents(InternalDrawingPipelinePart):
                                   title=self.title,
                                   save_path=self._get_save_path(current_input),
                                   height_scale=self.height_scale,
-                                  plot_legend=self.plot_legend)
+                                  plot_legend=self.plot_legend,
+                                  width_scale=self.width_scale)
 
         return current_input
 
diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9930dd9..9f6fc9d 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -362,6 +362,7 @@ class DrawSingleActivityPlacement(InternalDrawingPipelinePart):
                                         use_different_colors=self.use_different_colors,
                                         plot_legend=self.plot_legend,
                                         height_scale=self.height_scale,
+                                        width_scale=self.width_scale,
                                         title=self.title,
                                         save_path=self._get_save_path(current_input))
 
-- 
2.43.0


From 157e8e8e079b9ebb48e1a6ff05087c87ac7c1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:46 +0000
Subject: [PATCH 25/44] fix: draw trace histograms on axes, for a single log as
 well

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 7598f9d..dba43c5 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,7 +53,8 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.axis(), hist, classes_count)
+    _, drawer = plt.subplots()
+    _do_paint_hist(drawer, hist, classes_count)
     plt.suptitle(title)
 
     if save_path is None:
@@ -80,7 +81,7 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
     side_length = int(math.ceil(math.sqrt(len(logs))))
     log_index = 0
 
-    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12))
+    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12), squeeze=False)
 
     for row in range(side_length):
         for col in range(side_length):
-- 
2.43.0


From f3c95bdd64924a9dbd83be534279d9b559bec3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:46 +0000
Subject: [PATCH 26/44] fix: graphs and Petri nets can be exported to a path
 without a directory

---
 src/python/ficus/legacy/discovery/petri_net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index f732f2d..fec1ca5 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -69,7 +69,7 @@ def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
         display(g)
     else:
         dir_name = os.path.dirname(export_path)
-        if not os.path.exists(dir_name):
+        if dir_name and not os.path.exists(dir_name):
             os.makedirs(dir_name, exist_ok=True)
 
         _, extension = os.path.splitext(export_path)
-- 
2.43.0


From 073c48708e75e277de0582d4fdfc1d2f71bb3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:50 +0000
Subject: [PATCH 27/44] fix: graphs of activities and event classes keep the
 children of nodes which share a name

---
 .../analysis/patterns/patterns_graphs.py      | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 97755fd..591fc43 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -207,21 +207,22 @@ def build_graph(nodes: list[GraphNode],
                 set_attributes_to_func: Callable[[graphviz.Digraph], None] = default_graph_attr_setter):
     graph = graphviz.Digraph(graph_name)
     added_names = set()
+    visited_nodes = set()
 
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
         name = node_name_creator(node)
-        if name in added_names:
-            if parent_node is not None:
-                current_graph.edge(name, parent_node)
-
-            return
-
-        added_names.add(name)
-
         if parent_node is not None:
             current_graph.edge(name, parent_node)
 
-        current_graph.node(name)
+        if name not in added_names:
+            added_names.add(name)
+            current_graph.node(name)
+
+        # different nodes may have the same name, the children of each of them have to be added
+        if id(node) in visited_nodes:
+            return
+
+        visited_nodes.add(id(node))
         for child_activity in node.child_nodes:
             add_node(current_graph, name, child_activity)
 
-- 
2.43.0


From de1ac9c1d01f609c925ef16940de330409486238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:55 +0000
Subject: [PATCH 28/44] fix: edges of graphs lead to nodes with colons in their
 names

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 591fc43..1e2f714 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -210,7 +210,8 @@ def build_graph(nodes: list[GraphNode],
     visited_nodes = set()
 
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
-        name = node_name_creator(node)
+        # graphviz takes everything after a colon in the ends of an edge for a port
+        name = node_name_creator(node).replace(':', '&#58;')
         if parent_node is not None:
             current_graph.edge(name, parent_node)
 
-- 
2.43.0


From d535d539cae552f8451b291616881f5e3fa76263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:50 +0000
Subject: [PATCH 29/44] fix: list activities below an activity of the same name
 in the saved activities names

---
 .../legacy/pipelines/analysis/patterns/patterns_parts.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9f6fc9d..81b340e 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -471,14 +471,17 @@ class SaveAllActivitiesNames(InternalPipelinePart):
                 fout.write('\n')
 
                 visited = set()
+                written_names = set()
                 q = [root for root in activities_for_level]
                 while len(q) > 0:
                     current_activity = q.pop()
-                    if current_activity.name in visited:
+                    if id(current_activity) in visited:
                         continue
 
-                    visited.add(current_activity.name)
-                    fout.write(f'{current_activity.name}\n')
+                    visited.add(id(current_activity))
+                    if current_activity.name not in written_names:
+                        written_names.add(current_activity.name)
+                        fout.write(f'{current_activity.name}\n')
 
                     for child in current_activity.child_nodes:
                         q.append(child)
-- 
2.43.0


From bdea57a25ab7cb6ee5b554c2df209230cf1f0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 30/44] fix: equal events, traces and logs have equal hashes
 however their values are written

---
 src/python/ficus/legacy/util.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index fd9e98a..40a89c2 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -43,10 +43,27 @@ def calculate_poly_hash_for_collection(collection: list[Hashable],
 
 
 def calculate_dict_hash(current_map: dict[Any, Any]) -> int:
-    sorted_joined_pairs = list(sorted(map(lambda x: str(x[0]) + str(x[1]), current_map.items())))
+    sorted_joined_pairs = list(sorted(map(lambda x: _text_to_hash(x[0]) + _text_to_hash(x[1]), current_map.items())))
     return calculate_poly_hash_for_collection(list(map(calculate_string_poly_hash, sorted_joined_pairs)))
 
 
+def _text_to_hash(value: Any) -> str:
+    # equal values have equal texts, unlike with str(): 1 and 1.0, dicts filled in another order, dates of different zones
+    if isinstance(value, str):
+        return value
+
+    if isinstance(value, dict):
+        return str(sorted(_text_to_hash(key) + _text_to_hash(item) for key, item in value.items()))
+
+    if isinstance(value, (list, tuple)):
+        return str([_text_to_hash(item) for item in value])
+
+    if isinstance(value, set):
+        return str(hash(frozenset(value)))
+
+    return str(hash(value)) if isinstance(value, Hashable) else ''
+
+
 def combine_hash_values(*values) -> int:
     if len(values) == 0:
         return 0
-- 
2.43.0


From 7d9a3650c257827aef20da2c342859b2783c780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 31/44] fix: do not add activities of unattached events to the
 list of the given context

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 653bbad..bc721dc 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -130,8 +130,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
             old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
-            old_activities.extend(activities(temp_output))
-            return initial_input.with_activities(old_activities)
+            return initial_input.with_activities(old_activities + activities(temp_output))
 
         if not current_input.has_value(traces_activities_key):
             current_input = current_input.with_trace_activities([[] for _ in log(current_input)])
-- 
2.43.0


From e49e32391f8d7e3348094065400018000f5cf41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 32/44] fix: find tandem arrays whose base occurs earlier
 without repeating

---
 .../src/features/analysis/patterns/tandem_arrays.rs             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
index bc3efaf..d1d25d7 100644
--- a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
+++ b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
@@ -111,8 +111,8 @@ pub fn find_maximal_tandem_arrays_with_length(
                     continue;
                 }
 
-                visited.insert(sub_array_hash);
                 if let Some(tandem_array) = try_extract_tandem_array(trace, i, length) {
+                    visited.insert(sub_array_hash);
                     trace_tandem_arrays.push(tandem_array);
                 }
             }
-- 
2.43.0


From 776509f5c76ea66e674e61674ad3e31460c907d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 33/44] fix: tell repeat sets apart by their classes, not by a
 hash of them

---
 .../src/features/analysis/patterns/repeat_sets.rs         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs b/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs
index 6f00189..e48d0e7 100644
--- a/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs
+++ b/src/rust/ficus_backend/src/features/analysis/patterns/repeat_sets.rs
@@ -4,8 +4,6 @@ use std::{
     rc::Rc,
 };
 
-use crate::utils::hash_utils::calculate_poly_hash_for_collection;
-
 use super::tandem_arrays::SubArrayInTraceInfo;
 
 #[derive(Clone, Copy, Debug)]
@@ -44,10 +42,8 @@ pub fn build_repeat_sets(log: &Vec<Vec<u64>>, patterns: &Vec<Vec<SubArrayInTrace
             vec.extend(&set);
             vec.sort();
 
-            let hash = calculate_poly_hash_for_collection(vec.as_slice());
-
-            if !repeat_sets.contains_key(&hash) {
-                repeat_sets.insert(hash, SubArrayWithTraceIndex::new(*pattern, trace_index));
+            if !repeat_sets.contains_key(&vec) {
+                repeat_sets.insert(vec.clone(), SubArrayWithTraceIndex::new(*pattern, trace_index));
             }
         }
 
-- 
2.43.0


From ccb270f5d3cdd2d4e243d61e7aac10d8f7e8d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 34/44] fix: tell sub-arrays apart by their classes, not by a
 hash, when searching tandem arrays

---
 .../src/features/analysis/patterns/tandem_arrays.rs       | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
index d1d25d7..45a7214 100644
--- a/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
+++ b/src/rust/ficus_backend/src/features/analysis/patterns/tandem_arrays.rs
@@ -1,7 +1,5 @@
 use std::{cell::RefCell, collections::HashSet, rc::Rc};
 
-use crate::utils::hash_utils::calculate_poly_hash_for_collection;
-
 #[derive(Debug, Clone, Copy)]
 pub struct SubArrayInTraceInfo {
     pub start_index: usize,
@@ -106,13 +104,13 @@ pub fn find_maximal_tandem_arrays_with_length(
 
         for length in 2..(max_tandem_array_length.min(trace.len())) {
             for i in 0..(trace.len() - length) {
-                let sub_array_hash = calculate_poly_hash_for_collection(&trace[i..(i + length)]);
-                if visited.contains(&sub_array_hash) {
+                let sub_array = &trace[i..(i + length)];
+                if visited.contains(sub_array) {
                     continue;
                 }
 
                 if let Some(tandem_array) = try_extract_tandem_array(trace, i, length) {
-                    visited.insert(sub_array_hash);
+                    visited.insert(sub_array);
                     trace_tandem_arrays.push(tandem_array);
                 }
             }
-- 
2.43.0


From 9ee8415c99b6676acba7d20ab8ab87386fa26676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 35/44] fix: forget cached event counts and positions when a
 trace of the Rust log is edited

---
 .../src/event_log/core/event/events_holder.rs         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
index 59ac297..6552038 100644
--- a/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
+++ b/src/rust/ficus_backend/src/event_log/core/event/events_holder.rs
@@ -59,13 +59,21 @@ where
     }
 
     pub fn push(&mut self, event: Rc<RefCell<TEvent>>) {
+        self.forget_events_info();
         self.events.push(event);
     }
 
+    fn forget_events_info(&mut self) {
+        self.events_sequence_info = LazyCell::new();
+        self.events_positions = LazyCell::new();
+    }
+
     pub fn remove_events_by<TPred>(&mut self, predicate: TPred)
     where
         TPred: Fn(&TEvent) -> bool,
     {
+        self.forget_events_info();
+
         let events = &mut self.events;
         for index in (0..events.len()).rev() {
             if predicate(&events[index].borrow()) {
@@ -87,6 +95,8 @@ where
     where
         TMutator: Fn(&mut TEvent),
     {
+        self.forget_events_info();
+
         for event in &self.events {
             mutator(&mut event.borrow_mut());
         }
@@ -109,6 +119,7 @@ where
     }
 
     pub fn events_mut(&mut self) -> &mut Vec<Rc<RefCell<TEvent>>> {
+        self.forget_events_info();
         &mut self.events
     }
 }
-- 
2.43.0


From a73d0041b0630b509faf853452c14a33b5103f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 36/44] fix: alpha+ and heuristic miners of the Rust backend no
 longer underflow on traces with fewer than three events

---
 src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs    | 2 +-
 .../features/discovery/alpha/providers/alpha_plus_provider.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
index d3b2c2b..a77c5fe 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/alpha.rs
@@ -124,7 +124,7 @@ pub fn find_transitions_one_length_loop(log: &impl EventLog) -> HashSet<String>
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
-        for i in 0..(events.len() - 1) {
+        for i in 0..events.len().saturating_sub(1) {
             if events[i].borrow().name() == events[i + 1].borrow().name() {
                 one_loop_transitions.insert(events[i].borrow().name().to_owned());
             }
diff --git a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
index 2e0f7ba..a77e5cc 100644
--- a/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
+++ b/src/rust/ficus_backend/src/features/discovery/alpha/providers/alpha_plus_provider.rs
@@ -40,7 +40,7 @@ pub fn calculate_triangle_relations(log: &impl EventLog) -> HashMap<(String, Str
         let trace = trace.borrow();
         let events = trace.events();
 
-        for index in 0..(events.len() - 2) {
+        for index in 0..events.len().saturating_sub(2) {
             if events[index].borrow().name() == events[index + 2].borrow().name() {
                 let pair = (
                     events[index].borrow().name().to_owned(),
-- 
2.43.0


From 85c0c0fb70bad23ce099041d3b4a22f272fab813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:38 +0000
Subject: [PATCH 37/44] fix: start and end classes of a Rust log skip ignored
 events, as alpha+ expects

---
 .../src/features/analysis/event_log_info.rs        | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
index 001977d..d395bf0 100644
--- a/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
+++ b/src/rust/ficus_backend/src/features/analysis/event_log_info.rs
@@ -100,11 +100,6 @@ impl EventLogInfo {
             events_count += events.len();
             let mut prev_event_name = None;
 
-            if events.len() > 0 {
-                start_event_classes.insert(events.first().unwrap().borrow().name().to_owned());
-                end_event_classes.insert(events.last().unwrap().borrow().name().to_owned());
-            }
-
             for event in events {
                 let event = event.borrow();
                 let current_name = event.name().to_owned();
@@ -118,6 +113,7 @@ impl EventLogInfo {
                 update_events_counts(&current_name);
 
                 if prev_event_name.is_none() {
+                    start_event_classes.insert(current_name.to_owned());
                     prev_event_name = Some(current_name.to_owned());
                     if add_fake_start_end_events {
                         update_pairs_count(&FAKE_EVENT_START_NAME.to_string(), &current_name);
@@ -131,8 +127,12 @@ impl EventLogInfo {
                 prev_event_name = Some(event.name().to_owned());
             }
 
-            if add_fake_start_end_events && prev_event_name.is_some() {
-                update_pairs_count(&prev_event_name.unwrap(), &FAKE_EVENT_END_NAME.to_string());
+            if let Some(last_event_name) = prev_event_name {
+                if add_fake_start_end_events {
+                    update_pairs_count(&last_event_name, &FAKE_EVENT_END_NAME.to_string());
+                }
+
+                end_event_classes.insert(last_event_name);
             }
         }
 
-- 
2.43.0


From f362288434f5cfd68101d2e550a2739387f02361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 38/44] fix: replay needs as many tokens as a transition takes
 from a place, instead of panicking

---
 .../src/features/discovery/petri_net/replay.rs        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
index c113570..aeb2b44 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/replay.rs
@@ -40,14 +40,15 @@ impl ReplayState {
 
         let mut new_states = vec![];
         for candidate_transition in candidates {
-            let mut can_fire = true;
+            let mut required_tokens = HashMap::new();
             for arc in candidate_transition.incoming_arcs() {
-                if !state.markings.contains_key(&arc.place_id()) {
-                    can_fire = false;
-                    break;
-                }
+                *required_tokens.entry(arc.place_id()).or_insert(0) += arc.tokens_count();
             }
 
+            let can_fire = required_tokens
+                .iter()
+                .all(|(place_id, required)| state.markings.get(place_id).map_or(false, |count| count >= required));
+
             if can_fire {
                 let mut new_markings = state.markings.clone();
                 for arc in candidate_transition.incoming_arcs() {
-- 
2.43.0


From cda9e4c525af0eee052ebfd4a1535662e478b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 39/44] fix: ensure_initial_marking skips empty traces instead
 of panicking

---
 .../ficus_backend/src/features/discovery/petri_net/marking.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
index b268abe..9df2896 100644
--- a/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
+++ b/src/rust/ficus_backend/src/features/discovery/petri_net/marking.rs
@@ -47,6 +47,10 @@ pub fn ensure_initial_marking(log: &impl EventLog, petri_net: &mut DefaultPetriN
     for trace in log.traces() {
         let trace = trace.borrow();
         let events = trace.events();
+        if events.is_empty() {
+            continue;
+        }
+
         let first_event = events.first().unwrap().borrow();
         let start_transition = first_event.name();
 
-- 
2.43.0


From 7e32ac44c62bdb9eb96e7c83d85f9a09ed26bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 40/44] fix: look for the neighbours of the asked node in
 all_connected_nodes

---
 src/rust/ficus_backend/src/utils/graph/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/utils/graph/graph.rs b/src/rust/ficus_backend/src/utils/graph/graph.rs
index d835cf2..d1d8c56 100644
--- a/src/rust/ficus_backend/src/utils/graph/graph.rs
+++ b/src/rust/ficus_backend/src/utils/graph/graph.rs
@@ -93,9 +93,9 @@ where
             Some(connections) => connections.keys().collect(),
         };
 
-        for (node_id, connections) in &self.connections {
+        for (candidate, connections) in &self.connections {
             if connections.contains_key(node_id) {
-                connected_nodes.push(node_id);
+                connected_nodes.push(candidate);
             }
         }
 
-- 
2.43.0


From 5ef88ecb8db742a9b8a8d3f490a8899bf0db578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:02 +0000
Subject: [PATCH 41/44] fix: end reading a XES trace, event or global when the
 file ends or is not well-formed, instead of looping for ever

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs            | 1 +
 .../src/event_log/xes/reader/xes_log_trace_reader.rs           | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index 88acfbe..f21f384 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -176,6 +176,7 @@ impl FromFileXesEventLogReader {
                     GLOBAL_TAG_NAME => break,
                     _ => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
                 _ => continue,
             }
         }
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
index f0ec9e0..69f704e 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/xes_log_trace_reader.rs
@@ -32,6 +32,7 @@ impl Iterator for TraceXesEventLogIterator {
                     TRACE_TAG_NAME => return None,
                     _ => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
                 Err(_) => return None,
                 _ => continue,
             }
@@ -84,6 +85,8 @@ impl TraceXesEventLogIterator {
                     }
                     None => continue,
                 },
+                Ok(quick_xml::events::Event::Eof) => return None,
+                Err(_) => return None,
                 _ => continue,
             }
         }
-- 
2.43.0


From 52c55ff71ebde7ca0f917c11affc9233611ebbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:02 +0000
Subject: [PATCH 42/44] fix: unescape the attributes of XES extensions,
 classifiers and globals when reading

---
 .../src/event_log/xes/reader/file_xes_log_reader.rs |  6 +++---
 .../ficus_backend/src/event_log/xes/reader/utils.rs | 13 ++++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
index f21f384..9e4e72f 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/file_xes_log_reader.rs
@@ -196,9 +196,9 @@ impl FromFileXesEventLogReader {
                             return None;
                         }
                     }
-                    KEYS_ATTR_NAME => match String::from_utf8(real_attr.value.into_owned()) {
-                        Ok(keys_string) => keys = Some(keys_string.split(" ").map(|s| s.to_owned()).collect()),
-                        Err(_) => return None,
+                    KEYS_ATTR_NAME => match utils::read_unescaped_value(&real_attr) {
+                        Some(keys_string) => keys = Some(keys_string.split(" ").map(|s| s.to_owned()).collect()),
+                        None => return None,
                     },
                     _ => continue,
                 },
diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 4c39ef4..7b92634 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -65,15 +65,22 @@ pub fn extract_key_value(start: &BytesStart) -> KeyValuePair<String, String> {
 
 #[inline]
 pub fn read_attr_value(real_attr: &Attribute, var: &mut Option<String>) -> bool {
-    match String::from_utf8(real_attr.value.as_ref().to_vec()) {
-        Ok(string) => {
+    match read_unescaped_value(real_attr) {
+        Some(string) => {
             *var = Some(string);
             true
         }
-        Err(_) => false,
+        None => false,
     }
 }
 
+pub fn read_unescaped_value(real_attr: &Attribute) -> Option<String> {
+    let raw_value = String::from_utf8(real_attr.value.as_ref().to_vec()).ok()?;
+    let value = unescape(&raw_value).ok()?.to_string();
+
+    Some(value)
+}
+
 pub fn extract_payload_value(name: &[u8], value: &str) -> Option<EventPayloadValue> {
     match name {
         DATE_TAG_NAME => match DateTime::parse_from_rfc3339(value) {
-- 
2.43.0


From fbb391a2ecfdd172e8e3336d552748c49e243d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:02 +0000
Subject: [PATCH 43/44] fix: skip a XES attribute with an entity that cannot be
 unescaped instead of panicking

---
 src/rust/ficus_backend/src/event_log/xes/reader/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
index 7b92634..071fa06 100644
--- a/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/reader/utils.rs
@@ -26,8 +26,8 @@ pub fn read_payload_like_tag(tag: &BytesStart) -> Option<PayloadTagDescriptor> {
         return None;
     }
 
-    let key = unescape(kv.key.as_ref().unwrap()).ok().unwrap().to_string();
-    let value = unescape(kv.value.as_ref().unwrap()).ok().unwrap().to_string();
+    let key = unescape(kv.key.as_ref().unwrap()).ok()?.to_string();
+    let value = unescape(kv.value.as_ref().unwrap()).ok()?.to_string();
 
     let payload_type = match String::from_utf8(tag.name().0.to_vec()) {
         Ok(string) => string,
-- 
2.43.0


From 609bf841c17b787a57509994a20089c8b95e091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:02 +0000
Subject: [PATCH 44/44] fix: add_or_update_payload adds a new key instead of
 panicking

---
 src/rust/ficus_backend/src/event_log/xes/xes_event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
index 498d69d..c81ff1d 100644
--- a/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
+++ b/src/rust/ficus_backend/src/event_log/xes/xes_event.rs
@@ -68,7 +68,7 @@ impl Event for XesEventImpl {
             self.payload = Some(HashMap::new());
         }
 
-        *self.payload.as_mut().unwrap().get_mut(&key).unwrap() = value;
+        self.payload.as_mut().unwrap().insert(key, value);
     }
 
     fn new(name: String, timestamp: DateTime<Utc>) -> Self {
-- 
2.43.0

