From abc4f852e576b85a0ce7978513c7e782d3e25780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 01/22] fix: notifying subscribers survives a killed
 subscriber's queue

---
 src/koreo/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 1c4f2f8..ab56dea 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -110,6 +110,10 @@ def notify_subscribers(notifier: Resource, event_time: float):
             # health_check_task = asyncio.create_task()
             # _CHECK_SUBSCRIBER_HEALTH.add(health_check_task)
             # health_check_task.add_done_callback(_CHECK_SUBSCRIBER_HEALTH.discard)
+        except asyncio.QueueShutDown:
+            # A killed subscriber no longer receives notifications, but it must
+            # not prevent the remaining subscribers from being notified.
+            pass
 
 
 def get_subscribers(resource: Resource):
-- 
2.43.0


From e48a74924f874279ee6193b79046bb6e68343379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 02/22] fix: a cancelled re-prepare monitor no longer disturbs
 a re-offered resource

---
 src/koreo/cache.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cb99871..af7dccf 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -134,9 +134,11 @@ async def delete_from_cache(
     queue = registry.kill_resource(resource=resource)
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
-    # This shouldn't happen, just an extra check
-    if resource in _REPREPARE_TASKS:
-        _REPREPARE_TASKS[resource].cancel()
+    # Forget the monitor immediately. If this resource is offered again before
+    # the cancellation is processed, it must get its own (new) monitor.
+    reprepare_task = _REPREPARE_TASKS.pop(resource, None)
+    if reprepare_task:
+        reprepare_task.cancel()
 
     match queue:
         case None:
@@ -271,8 +273,14 @@ _REPREPARE_TASKS: dict[registry.Resource, asyncio.Task] = {}
 
 def _deletor(resource):
     def do_delete(task: asyncio.Task):
-        del _REPREPARE_TASKS[resource]
-        registry.deregister(resource, time.monotonic())
+        # If the resource was deleted (and perhaps offered again), then this is
+        # a stale monitor. It must not interfere with the current registration.
+        if _REPREPARE_TASKS.get(resource) is task:
+            del _REPREPARE_TASKS[resource]
+            registry.deregister(resource, time.monotonic())
+
+        if task.cancelled():
+            return
 
         task_exception = task.exception()
         if task_exception:
-- 
2.43.0


From c02cb204bbc365519b318baa9588d23bd96fa0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 03/22] fix: evaluate a step's skipIf before its inputs

---
 src/koreo/workflow/reconcile.py | 44 ++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 70513b2..b9043f2 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -247,17 +247,6 @@ async def _reconcile_step(
     if not dependencies:
         workflow_inputs = celtypes.MapType({"parent": trigger})
 
-        if not step.inputs:
-            inputs = celtypes.MapType()
-        else:
-            inputs = evaluate(
-                expression=step.inputs,
-                inputs=workflow_inputs,
-                location=f"{location}.inputs",
-            )
-            if not result.is_unwrapped_ok(inputs):
-                return StepResult(result=inputs)
-
         if step.skip_if:
             match evaluate(
                 expression=step.skip_if,
@@ -279,6 +268,17 @@ async def _reconcile_step(
                         )
                     )
 
+        if not step.inputs:
+            inputs = celtypes.MapType()
+        else:
+            inputs = evaluate(
+                expression=step.inputs,
+                inputs=workflow_inputs,
+                location=f"{location}.inputs",
+            )
+            if not result.is_unwrapped_ok(inputs):
+                return StepResult(result=inputs)
+
         if step.for_each:
             return await _for_each_reconciler(
                 api=api,
@@ -363,17 +363,6 @@ async def _reconcile_step(
             "parent": trigger,
         }
     )
-    if not step.inputs:
-        inputs = celtypes.MapType()
-    else:
-        inputs = evaluate(
-            expression=step.inputs,
-            inputs=workflow_inputs,
-            location=f"{location}.inputs",
-        )
-        if not result.is_unwrapped_ok(inputs):
-            return StepResult(result=inputs)
-
     if step.skip_if:
         match evaluate(
             expression=step.skip_if,
@@ -393,6 +382,17 @@ async def _reconcile_step(
                     )
                 )
 
+    if not step.inputs:
+        inputs = celtypes.MapType()
+    else:
+        inputs = evaluate(
+            expression=step.inputs,
+            inputs=workflow_inputs,
+            location=f"{location}.inputs",
+        )
+        if not result.is_unwrapped_ok(inputs):
+            return StepResult(result=inputs)
+
     if step.for_each:
         return await _for_each_reconciler(
             api=api,
-- 
2.43.0


From eb6cec92e97065af311704518596210b5e33c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 04/22] fix: static reference extraction handles every
 expression shape

---
 src/koreo/cel/structure_extractor.py   | 172 +++++++++----------------
 src/koreo/resource_function/prepare.py |   2 +-
 src/koreo/workflow/prepare.py          |   4 +-
 3 files changed, 65 insertions(+), 113 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 3a8d394..0e7f6fc 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -1,132 +1,84 @@
-from lark import Tree, Token
+from lark import Token, Tree
+from celpy.evaluation import celstr
+
+# These only group or pass-through a sub-expression when they have exactly one
+# child, hence they do not affect what is being accessed.
+_TRANSPARENT = {
+    "expr",
+    "conditionalor",
+    "conditionaland",
+    "relation",
+    "addition",
+    "multiplication",
+    "unary",
+    "member",
+    "primary",
+    "paren_expr",
+}
 
 
 def extract_argument_structure(compiled: Tree) -> set[str]:
     var_map: set[str] = set()
     for thing in compiled.iter_subtrees():
-        if thing.data == "member_dot":
-            member_dot: str = _process_member_dot(thing)
-            var_map.add(member_dot)
+        if thing.data not in ("member_dot", "member_index"):
+            continue
 
-        if thing.data == "member_index":
-            member_index: str = _process_member_index(thing)
-            var_map.add(member_index)
+        path = _process_member(thing)
+        if path:
+            var_map.add(path)
 
     return var_map
 
 
-def _process_member_dot(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
+def _process_member(tree: Tree) -> str | None:
+    """The (dotted) path an access names.
 
-    # print(f"{len(tree.children)}: {tree.children[0]}")
+    Only an access chain rooted at a variable, using only names and literal
+    indexes, names something statically. Accesses to computed values (calls,
+    macros, literals, operators) or using computed indexes do not; any named
+    accesses within them are their own subtrees.
+    """
+    parts: list[str] = []
 
-    terminal = f"{tree.children[1]}"
+    node = tree
+    while True:
+        match node.data:
+            case "member_dot" | "member_dot_arg":
+                parts.append(f"{node.children[1]}")
+                node = _unwrap(node.children[0])
 
-    root: Tree = tree.children[0].children[0]
+            case "member_index":
+                index = _process_index(_unwrap(node.children[1]))
+                if index is None:
+                    return None
 
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
+                parts.append(index)
+                node = _unwrap(node.children[0])
 
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
+            case "ident" | "dot_ident":
+                parts.append(f"{node.children[0]}")
+                return ".".join(reversed(parts))
 
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
+            case _:
+                return None
 
-    if root.data == "primary":
-        return f"{_process_primary(root)}.{terminal}"
 
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
+def _process_index(tree: Tree) -> str | None:
+    match tree.data:
+        case "ident":
+            return f"{tree.children[0]}"
 
+        case "literal":
+            literal: Token = tree.children[0]
+            if literal.type in ("STRING_LIT", "MLSTRING_LIT"):
+                return f"{celstr(literal)}"
+            return f"{literal.value}"
 
-def _process_member_dot_arg(tree: Tree):
-    if len(tree.children) != 3:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
+        case _:
+            return None
 
-    # print(f"{len(tree.children)}: {tree.children[0]}")
 
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary" or root.data == "ident":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
-
-
-def _process_member_index(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal: Tree = tree.children[1]
-
-    if terminal.data == "primary":
-        terminal_value: str = _process_primary(terminal)
-
-    elif terminal.data == "expr":
-        terminal_value = None
-        while terminal and terminal.children:
-            if terminal.data == "primary":
-                terminal_value = _process_primary(terminal)
-                break
-
-            terminal: Tree = terminal.children[0]
-
-        if not terminal_value:
-            raise Exception(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
-
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        root_value = _process_member_dot(root)
-    elif root.data == "member_index":
-        root_value = _process_member_index(root)
-    elif root.data == "member_dot_arg":
-        root_value = _process_member_dot_arg(root)
-    elif root.data == "primary":
-        root_value: str = _process_primary(root)
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
-
-    return f"{root_value}.{terminal_value}"
-
-
-def _process_primary(tree: Tree) -> str:
-    if len(tree.children) != 1:
-        raise Exception(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
-
-    primary: Tree = tree.children[0]
-
-    # print(f"{len(tree.children)}: {primary}")
-
-    if primary.data == "ident":
-        return f"{primary.children[0]}"
-
-    if primary.data == "literal":
-        literal: Token = primary.children[0]
-        if literal.type == "INT_LIT":
-            return literal.value
-        return literal.strip(literal[0])
-
-    raise Exception(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+def _unwrap(tree: Tree) -> Tree:
+    while tree.data in _TRANSPARENT and len(tree.children) == 1:
+        tree = tree.children[0]
+    return tree
diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index f23b63c..05aecc2 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -277,7 +277,7 @@ def _prepare_resource_template(
             )
 
 
-INPUTS_NAME_PATTERN = re.compile(r"inputs.(?P<name>[^.[]+)?\[?.*")
+INPUTS_NAME_PATTERN = re.compile(r"inputs\.(?P<name>[^.[]+)")
 
 
 def _prepare_overlays(
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 6a3ccbe..4693194 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -99,8 +99,8 @@ def _build_crd_ref(crd_ref_spec: dict) -> structure.ConfigCRDRef | None:
     return structure.ConfigCRDRef(api_group=api_group, version=version, kind=kind)
 
 
-PARENT_NAME_PATTERN = re.compile(r"parent.(?P<name>.*)")
-STEPS_NAME_PATTERN = re.compile(r"steps.(?P<name>[^.[]+)?\[?.*")
+PARENT_NAME_PATTERN = re.compile(r"parent\.(?P<name>.*)")
+STEPS_NAME_PATTERN = re.compile(r"steps\.(?P<name>[^.[]+)")
 
 
 LogicRegistryResource = registry.Resource[
-- 
2.43.0


From 661691d716c97fd11ecb498592abf1a4542ad60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 05/22] fix: a crashed or timed out step never reports a Ready
 condition

---
 src/koreo/workflow/reconcile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index b9043f2..7788e80 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -164,7 +164,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=timeout_outcome,
+                    outcome=timeout_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
@@ -182,7 +182,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=error_outcome,
+                    outcome=error_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
-- 
2.43.0


From e4d942842daa9b43e8bb1d832050001ec126454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 06/22] fix: list compare directives hold for any member and
 list type

---
 .../resource_function/reconcile/validate.py   | 66 ++++++++++++++-----
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 221fe67..60f1432 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -40,7 +40,14 @@ def validate_match(
             if compare_list_as_set:
                 # Sets must be simple, so if needed last_applied_value is
                 # already the compare value.
-                return _validate_set_match(target, actual)
+                set_match = _validate_set_match(target, actual)
+                if set_match.match:
+                    return set_match
+
+                # Lists of arrays or objects can't be compared as sets, but an
+                # exact match is still a match.
+                list_match = _validate_list_match(target, actual, last_applied_value)
+                return list_match if list_match.match else set_match
 
             return _validate_list_match(target, actual, last_applied_value)
 
@@ -97,17 +104,41 @@ def validate_match(
         )
 
 
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> tuple[str, ...]:
+    return tuple(f"{obj.get(field)}".strip() for field in fields)
 
 
 def _list_to_object(
-    obj_list: Sequence[dict], key_fields: Sequence[int | str]
-) -> dict[str, dict] | None:
-    if not obj_list:
+    obj_list: Sequence[dict] | None, key_fields: Sequence[int | str]
+) -> dict[tuple[str, ...], dict] | None:
+    """Key a list of objects, None if it isn't a list of uniquely keyed objects."""
+    if not obj_list or not isinstance(obj_list, (list, tuple)):
+        return None
+
+    if not all(isinstance(obj, dict) for obj in obj_list):
         return None
 
-    return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
+    keyed = {_obj_to_key(obj, key_fields): obj for obj in obj_list}
+
+    return keyed if len(keyed) == len(obj_list) else None
+
+
+def _validate_list_as_map_match(
+    target, actual, last_applied_value, key_fields: Sequence[int | str]
+) -> ResourceMatch:
+    target_map = _list_to_object(target, key_fields)
+    actual_map = _list_to_object(actual, key_fields)
+
+    if target_map is None or actual_map is None:
+        return validate_match(
+            target=target, actual=actual, last_applied_value=last_applied_value
+        )
+
+    return validate_match(
+        target=target_map,
+        actual=actual_map,
+        last_applied_value=_list_to_object(last_applied_value, key_fields),
+    )
 
 
 def _validate_dict_match(
@@ -155,13 +186,11 @@ def _validate_dict_match(
             compare_value = actual[target_key]
 
         if target_key in compare_as_map:
-            map_keys = compare_as_map[target_key]
-            key_match = validate_match(
-                target=_list_to_object(target[target_key], map_keys),
-                actual=_list_to_object(compare_value, map_keys),
-                last_applied_value=_list_to_object(
-                    last_applied_value[target_key], map_keys
-                ),
+            key_match = _validate_list_as_map_match(
+                target=target[target_key],
+                actual=compare_value,
+                last_applied_value=last_applied_value[target_key],
+                key_fields=compare_as_map[target_key],
             )
         else:
             key_match = validate_match(
@@ -240,8 +269,9 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
         )
 
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        # In Python `True == 1`, so the members must be qualified.
+        target_set = {(isinstance(value, bool), value) for value in target}
+        actual_set = {(isinstance(value, bool), value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -265,10 +295,10 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
     if not (missing_values or unexpected_values):
         return ResourceMatch(match=True, differences=())
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         return ResourceMatch(match=False, differences=(f"<missing '{missing_value}'>",))
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         return ResourceMatch(
             match=False, differences=(f"<unexpectedly found '{unexpected_value}'>",)
         )
-- 
2.43.0


From 19edcbce8ee5aee526ec737a3be55ac464c16eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 07/22] fix: a foreign last-applied annotation never breaks the
 comparison

---
 src/koreo/resource_function/reconcile/__init__.py | 6 +++++-
 src/koreo/resource_function/reconcile/validate.py | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 8c0039f..3268e8e 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -835,7 +835,11 @@ def _extract_last_applied(resource: dict) -> dict | None:
     if not last_applied:
         return None
 
-    return json.loads(last_applied)
+    try:
+        return json.loads(last_applied)
+    except ValueError:
+        logger.warning(f"Ignoring corrupt `{LAST_APPLIED_ANNOTATION}` annotation.")
+        return None
 
 
 def _prepare_for_api(obj: dict) -> dict:
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 60f1432..734650b 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -160,7 +160,7 @@ def _validate_dict_match(
         if key
     }
 
-    if not last_applied_value:
+    if not isinstance(last_applied_value, dict):
         last_applied_value = {}
 
     for target_key in target_keys:
@@ -232,13 +232,13 @@ def _validate_list_match(
             ],
         )
 
-    if last_applied_value:
+    if isinstance(last_applied_value, (list, tuple)):
         last_applied_len = len(last_applied_value)
     else:
         last_applied_len = 0
 
     for idx, (target_value, actual_value) in enumerate(zip(target, actual)):
-        if last_applied_value and idx < last_applied_len:
+        if idx < last_applied_len:
             last_applied_item_value = last_applied_value[idx]
         else:
             last_applied_item_value = None
-- 
2.43.0


From f21e6f35cde3a95c9da4f21441cf6679ab9ed323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 08/22] fix: the last-applied annotation is never part of the
 target

---
 src/koreo/resource_function/reconcile/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 3268e8e..af7630b 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,7 +319,7 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = convert_bools(expected_resource)
+    converted_resource = _without_last_applied(convert_bools(expected_resource))
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -678,7 +678,7 @@ async def _create_api_resource(
 
     new_resource = resource_api(
         api=api,
-        resource=_prepare_for_api(converted_resource),
+        resource=_prepare_for_api(_without_last_applied(converted_resource)),
         namespace=namespace,
     )
 
@@ -842,6 +842,17 @@ def _extract_last_applied(resource: dict) -> dict | None:
         return None
 
 
+def _without_last_applied(obj: dict) -> dict:
+    """The annotation is Koreo's own, so it is never part of the target."""
+    match obj:
+        case {"metadata": {"annotations": None}}:
+            del obj["metadata"]["annotations"]
+        case {"metadata": {"annotations": dict() as annotations}}:
+            annotations.pop(LAST_APPLIED_ANNOTATION, None)
+
+    return obj
+
+
 def _prepare_for_api(obj: dict) -> dict:
     prepared = _strip_koreo_directives(obj)
 
-- 
2.43.0


From 7bc11e12449616160cea96056fee2c4c6abf44ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 09/22] fix: a patch keeps the owner references of the live
 object

---
 .../resource_function/reconcile/__init__.py   | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index af7630b..834a12e 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -359,7 +359,18 @@ async def reconcile_krm_resource(
                 owner_refs = _updated_owner_refs(api_resource.raw, owner_ref)
                 if not is_unwrapped_ok(owner_refs):
                     return ReconcileResult(result=owner_refs, resource_id=resource_id)
+            else:
+                owner_refs = None
+
+            # Patching replaces the list, so it must keep the current owners.
+            target_refs = converted_resource["metadata"].pop("ownerReferences", None)
+            if target_refs and isinstance(target_refs, list):
+                if owner_refs is None:
+                    owner_refs = api_resource.raw["metadata"].get("ownerReferences")
+
+                owner_refs = _merge_owner_refs(owner_refs or [], target_refs)
 
+            if owner_refs is not None:
                 converted_resource["metadata"]["ownerReferences"] = owner_refs
 
             await api_resource.patch(_prepare_for_api(converted_resource))
@@ -780,6 +791,16 @@ def _updated_owner_refs(resource_view: dict, owner_ref: dict):
     return updated_owners
 
 
+def _merge_owner_refs(current_refs: Sequence[dict], target_refs: Sequence[dict]):
+    merged_refs = list(copy.deepcopy(current_refs))
+    merged_refs.extend(
+        target_ref
+        for target_ref in target_refs
+        if target_ref.get("uid") not in [ref.get("uid") for ref in current_refs]
+    )
+    return merged_refs
+
+
 def _validate_owner_reffed(resource_view: dict, owner_ref: dict):
     match resource_view:
         case {"metadata": metadata}:
-- 
2.43.0


From 57c82f4e0db1e9e7721e659648213158e8f4228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 10/22] fix: targets with bool or int map keys compare equal to
 the live object

---
 .../resource_function/reconcile/__init__.py   | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 834a12e..f306f5d 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,7 +319,9 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = _without_last_applied(convert_bools(expected_resource))
+    converted_resource = _without_last_applied(
+        _with_json_keys(convert_bools(expected_resource))
+    )
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -679,7 +681,7 @@ async def _create_api_resource(
 
         resource_view["metadata"]["ownerReferences"] = owner_refs
 
-    converted_resource = convert_bools(resource_view)
+    converted_resource = _with_json_keys(convert_bools(resource_view))
 
     if not isinstance(converted_resource, (celtypes.MapType, dict)):
         return PermFail(
@@ -863,6 +865,22 @@ def _extract_last_applied(resource: dict) -> dict | None:
         return None
 
 
+def _with_json_keys[T](obj: T) -> T:
+    """JSON object keys are always strings, CEL also allows bools and ints."""
+    match obj:
+        case dict():
+            return {
+                key if isinstance(key, str) else json.dumps(key): _with_json_keys(value)
+                for key, value in obj.items()
+            }
+
+        case list():
+            return [_with_json_keys(value) for value in obj]
+
+        case _:
+            return obj
+
+
 def _without_last_applied(obj: dict) -> dict:
     """The annotation is Koreo's own, so it is never part of the target."""
     match obj:
-- 
2.43.0


From 2c060778984727f767a98e82e4b811442d3306e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 11/22] fix: overlays and forEach inputs may contain timestamps
 and durations

---
 src/koreo/cel/evaluation.py     |  4 ++--
 src/koreo/cel/functions.py      | 18 ++++++++++++++++--
 src/koreo/workflow/reconcile.py |  3 ++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index c9b4cee..01a05ac 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -1,4 +1,3 @@
-import copy
 import logging
 
 logger = logging.getLogger("koreo.cel.evaluation")
@@ -10,6 +9,7 @@ import celpy
 from koreo.predicate_helpers import predicate_to_koreo_result
 from koreo.result import NonOkOutcome, PermFail
 
+from koreo.cel.functions import copy_containers
 from koreo.cel.prepare import Index, Overlay
 
 
@@ -113,7 +113,7 @@ def evaluate_overlay(
 def _overlay_applier(
     base: celtypes.MapType, index: dict[str, Index], values: celtypes.ListType
 ) -> celtypes.MapType:
-    overlaid = copy.deepcopy(base)
+    overlaid = copy_containers(base)
     for key, value_index in index.items():
         cel_key = celtypes.StringType(key)
         match value_index:
diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index ced8a06..65b23ab 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -1,4 +1,3 @@
-import copy
 import json
 import base64
 
@@ -233,11 +232,26 @@ def _overlay(
     return _deep_overlay(resource, overlay)
 
 
+def copy_containers[T](value: T) -> T:
+    """Copy mappings and lists. CEL's scalars are immutable, so they are shared;
+    some (Duration and Timestamp) do not support being deep copied.
+    """
+    if isinstance(value, dict):
+        return type(value)(
+            {key: copy_containers(sub_value) for key, sub_value in value.items()}
+        )
+
+    if isinstance(value, list):
+        return type(value)([copy_containers(sub_value) for sub_value in value])
+
+    return value
+
+
 def _deep_overlay(
     resource: celtypes.MapType,
     overlay: celtypes.MapType,
 ) -> celtypes.MapType | celpy.CELEvalError:
-    resource = copy.deepcopy(resource)
+    resource = copy_containers(resource)
 
     for field, overlay_value in overlay.items():
         if field in resource:
diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 7788e80..fb1b323 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -9,6 +9,7 @@ from celpy import celtypes
 
 from koreo import result
 from koreo.cel.evaluation import evaluate
+from koreo.cel.functions import copy_containers
 from koreo.conditions import Condition
 from koreo.resource_function.reconcile import reconcile_resource_function
 from koreo.value_function.reconcile import reconcile_value_function
@@ -581,7 +582,7 @@ async def _for_each_reconciler(
     try:
         async with asyncio.timeout(STEP_TIMEOUT), asyncio.TaskGroup() as task_group:
             for idx, map_value in enumerate(source_iterator):
-                iterated_inputs = copy.deepcopy(inputs)
+                iterated_inputs = copy_containers(inputs)
                 iterated_inputs[step.for_each.input_key] = map_value
                 tasks.append(
                     task_group.create_task(
-- 
2.43.0


From be51e101d2d9c1d6732ec30c3afba66db3a725c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 12/22] fix: literal strings and map keys are encoded as CEL
 literals without change

---
 src/koreo/cel/encoder.py | 46 +++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/koreo/cel/encoder.py b/src/koreo/cel/encoder.py
index 98d9727..2ee7bea 100644
--- a/src/koreo/cel/encoder.py
+++ b/src/koreo/cel/encoder.py
@@ -1,5 +1,7 @@
 from typing import Any
 import base64
+import math
+import re
 
 from celpy import celtypes
 
@@ -58,7 +60,7 @@ def convert_bools(
 def encode_cel(value: Any) -> str:
     if isinstance(value, dict):
         return f"{{{ ",".join(
-            f'"{f"{key}".replace('"', '\"')}":{encode_cel(value)}'
+            f'{_encode_string(f"{key}")}:{encode_cel(value)}'
             for key, value in value.items()
         ) }}}"
 
@@ -74,35 +76,39 @@ def encode_cel(value: Any) -> str:
     if _encode_plain(value):
         return f"{value}"
 
-    if not value:
-        return '""'
-
     if not value.startswith(CEL_PREFIX):
-        if "\n" in value:
-            return f'r"""{ value.replace('"', '\"') }"""'  # fmt: skip
+        return _encode_string(value)
 
-        if '"' in value:
-            return f'"""{ value.replace('"', r'\"') }"""'  # fmt: skip
+    return value.lstrip(CEL_PREFIX)
 
-        return f'"{value}"'  # fmt: skip
 
-    return value.lstrip(CEL_PREFIX)
+# CEL string literals may not contain a bare newline, and backslashes and quotes
+# must be escaped in order to be taken literally.
+_STRING_ESCAPES = str.maketrans({"\\": r"\\", '"': r"\"", "\n": r"\n", "\r": r"\r"})
+
+
+def _encode_string(value: str) -> str:
+    quotes = '"""' if '"' in value else '"'
+    return f"{quotes}{value.translate(_STRING_ESCAPES)}{quotes}"
+
+
+# Digits with optional leading minus, fraction, and exponent.
+_INT_LITERAL = re.compile(r"-?[0-9]+")
+_FLOAT_LITERAL = re.compile(r"-?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?")
 
 
 def _encode_plain(maybe_number) -> bool:
     if not isinstance(maybe_number, str):
         return True
 
-    try:
-        int(maybe_number)
-        return True
-    except ValueError:
-        pass
+    # A numeral which CEL is not able to represent is left as a string.
+    if _INT_LITERAL.fullmatch(maybe_number):
+        try:
+            return -(2**63) <= int(maybe_number) < 2**63
+        except ValueError:  # Python refuses to parse extremely long integers.
+            return False
 
-    try:
-        float(maybe_number)
-        return True
-    except ValueError:
-        pass
+    if _FLOAT_LITERAL.fullmatch(maybe_number):
+        return math.isfinite(float(maybe_number))
 
     return False
-- 
2.43.0


From c0562e61513afd143c8e703e7abfb5ce753b8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 13/22] fix: a ResourceFunction uses exactly the configured
 kind, version, plural and scope

---
 src/koreo/resource_function/prepare.py | 56 ++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 05aecc2..ab7307a 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -221,13 +221,19 @@ def _prepare_api_config(
             # Just needed to set name
             pass
 
-    try:
-        resource_api = kr8s.objects.get_class(
-            version=api_version,
-            kind=kind,
-            _asyncio=True,
-        )
-    except KeyError:
+    if api_version.count("/") > 1:
+        return PermFail(message=f"`apiVersion` '{api_version}' is not valid")
+
+    if "." in kind or "/" in kind:
+        return PermFail(message=f"`kind` '{kind}' is not valid")
+
+    resource_api = _find_resource_api(
+        api_version=api_version,
+        kind=kind,
+        plural=spec.get("plural"),
+        namespaced=spec.get("namespaced"),
+    )
+    if not resource_api:
         resource_api = kr8s.objects.new_class(
             version=api_version,
             kind=kind,
@@ -238,6 +244,42 @@ def _prepare_api_config(
     return (resource_api, resource_id, owned, readonly, delete_if_exists)
 
 
+def _find_resource_api(
+    api_version: str, kind: str, plural: str | None, namespaced: bool | None
+) -> type[APIObject] | None:
+    """kr8s finds classes loosely (in any group for core versions, and by plural
+    name), so make certain it found exactly what was configured.
+    """
+    try:
+        resource_api = kr8s.objects.get_class(
+            version=api_version,
+            kind=kind,
+            _asyncio=True,
+        )
+    except (KeyError, ValueError):
+        return None
+
+    if resource_api.version != api_version or resource_api.kind != kind:
+        return None
+
+    # Only for these does kr8s truly know the plural and scope.
+    if getattr(kr8s._objects, kind, None) is resource_api:
+        if not plural:
+            plural = resource_api.plural
+        if namespaced is None:
+            namespaced = resource_api.namespaced
+
+    if not plural:
+        plural = constants.PLURAL_LOOKUP_NEEDED
+    if namespaced is None:
+        namespaced = True
+
+    if resource_api.plural != plural.lower() or resource_api.namespaced != namespaced:
+        return None
+
+    return resource_api
+
+
 def _prepare_resource_template(
     cel_env: celpy.Environment, spec: dict
 ) -> structure.InlineResourceTemplate | structure.ResourceTemplateRef | PermFail:
-- 
2.43.0


From 35d189c455adfbf2fd61f7954c61d1e4f95512a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 14/22] fix: operations on a value which failed to evaluate
 fail

---
 src/koreo/cel/functions.py | 57 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index 65b23ab..666d9de 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -1,7 +1,9 @@
+from functools import wraps
 import json
 import base64
 
 from celpy import celtypes
+from celpy.evaluation import base_functions
 import celpy
 
 
@@ -386,6 +388,48 @@ def _replace(
         return celpy.CELEvalError(f"Replace error {err}")
 
 
+def _find_error(value: celtypes.Value | celpy.CELEvalError):
+    match value:
+        case celpy.CELEvalError():
+            return value
+
+        case dict():
+            for key, sub_value in value.items():
+                if error := _find_error(key) or _find_error(sub_value):
+                    return error
+
+        case list() | tuple():
+            for sub_value in value:
+                if error := _find_error(sub_value):
+                    return error
+
+    return None
+
+
+def _strict(function: celpy.CELFunction) -> celpy.CELFunction:
+    """An operation on something which failed to evaluate fails, it must not
+    compare, convert, or ignore the error.
+    """
+
+    @wraps(function)
+    def strict_function(*args):
+        for arg in args:
+            if error := _find_error(arg):
+                return error
+
+        return function(*args)
+
+    return strict_function
+
+
+_string = _strict(celtypes.StringType)
+
+
+def _type(value: celtypes.Value):
+    # This keeps `type("") == string`
+    return _string if isinstance(value, celtypes.StringType) else type(value)
+
+
 koreo_function_annotations: dict[str, celpy.Annotation] = {
     "to_ref": celtypes.FunctionType,
     "self_ref": celtypes.FunctionType,
@@ -408,7 +452,14 @@ koreo_function_annotations: dict[str, celpy.Annotation] = {
     "replace": celtypes.FunctionType,
 }
 
-koreo_cel_functions: dict[str, celpy.CELFunction] = {
+_functions: dict[str, celpy.CELFunction] = {
+    # These CEL builtins accept errors as if they were values.
+    "_==_": base_functions["_==_"],
+    "_!=_": base_functions["_!=_"],
+    "_in_": base_functions["_in_"],
+    "size": base_functions["size"],
+    "contains": base_functions["contains"],
+    "type": _type,
     "to_ref": _to_ref,
     "self_ref": _self_ref,
     "group_ref": _group_ref,
@@ -429,3 +480,7 @@ koreo_cel_functions: dict[str, celpy.CELFunction] = {
     "b64decode": _b64decode,
     "replace": _replace,
 }
+
+koreo_cel_functions: dict[str, celpy.CELFunction] = {
+    name: _strict(function) for name, function in _functions.items()
+} | {"string": _string}
-- 
2.43.0


From 16ece3d0f27c89f4217ef1aac7719ee43ffda860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 15/22] fix: any expression's evaluation error is reported,
 whatever its shape

---
 src/koreo/cel/evaluation.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index 01a05ac..4f49b61 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -28,7 +28,7 @@ def evaluate(
         return expression_value
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -61,7 +61,7 @@ def evaluate_predicates(
         return predicate_to_koreo_result(raw_result, location=location)
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -96,7 +96,7 @@ def evaluate_overlay(
             )
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -141,7 +141,7 @@ def check_for_celevalerror(
 ) -> None | PermFail:
     match value:
         case celpy.CELEvalError(tree=error_tree):
-            tree = tree_dump(error_tree) if error_tree else ""
+            tree = _dump_tree(error_tree)
             return PermFail(
                 message=f"Error evaluating `{location}` (at {tree}) {value.args}",
                 location=tree,
@@ -161,3 +161,14 @@ def check_for_celevalerror(
                     return eval_error
 
     return None
+
+
+def _dump_tree(tree) -> str:
+    if not tree:
+        return ""
+
+    try:
+        return tree_dump(tree)
+    except Exception:
+        # Some expressions, such as an empty map, can not be dumped.
+        return "<expression>"
-- 
2.43.0


From 9cdb9fba3ec12590bf9bc7da9987ca6d76c3f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 16/22] fix: a resource which can not be encoded is a PermFail

---
 .../resource_function/reconcile/__init__.py   | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index f306f5d..12b606c 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,9 +319,11 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = _without_last_applied(
-        _with_json_keys(convert_bools(expected_resource))
-    )
+    converted_resource = _with_json_keys(convert_bools(expected_resource))
+    if error := _check_encodable(converted_resource, location="spec.resource"):
+        return ReconcileResult(result=error, resource_id=resource_id)
+
+    converted_resource = _without_last_applied(converted_resource)
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -689,6 +691,9 @@ async def _create_api_resource(
             location="<api-create-convert>",
         )
 
+    if error := _check_encodable(converted_resource, location="spec.create"):
+        return error
+
     new_resource = resource_api(
         api=api,
         resource=_prepare_for_api(_without_last_applied(converted_resource)),
@@ -881,6 +886,19 @@ def _with_json_keys[T](obj: T) -> T:
             return obj
 
 
+def _check_encodable(obj: dict, location: str) -> PermFail | None:
+    """CEL types and functions are values, but they are not data."""
+    try:
+        json.dumps(obj)
+    except TypeError as err:
+        return PermFail(
+            message=f"Can not encode the resource for `{location}`: {err}",
+            location=location,
+        )
+
+    return None
+
+
 def _without_last_applied(obj: dict) -> dict:
     """The annotation is Koreo's own, so it is never part of the target."""
     match obj:
-- 
2.43.0


From 88e73f5e16c31592639b903f55605d37835620fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 17/22] fix: reject expressions the CEL parser fails on

For some malformed expressions, such as `a.true`, the parser fails with other
errors than CELParseError. Those escaped from preparing the definition.
---
 src/koreo/cel/prepare.py       |  5 +++++
 src/koreo/predicate_helpers.py | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index a67572f..cb6b9a5 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -27,6 +27,11 @@ def prepare_expression(
         return PermFail(
             message=f"Parsing error at line {err.line}, column {err.column}. '{err}' in {location} ('{encoded}')",
         )
+    except Exception as err:
+        # Some malformed expressions make the parser itself fail.
+        return PermFail(
+            message=f"Unable to parse {location} ('{encoded}'). {type(err).__name__}: '{err}'",
+        )
 
     value.logger.setLevel(logging.WARNING)
 
diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 784435b..027101d 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -20,7 +20,13 @@ def predicate_extractor(
     if not isinstance(predicate_spec, (list, tuple)):
         return result.PermFail(message="Malformed conditions, expected a list")
 
-    predicates = encode_cel(predicate_spec)
+    try:
+        predicates = encode_cel(predicate_spec)
+    except Exception as err:
+        return result.PermFail(
+            message=f"Structural error while building conditions '{err}'."
+        )
+
     conditions = f"{predicates}.filter(predicate, !predicate.assert)"
 
     try:
@@ -32,6 +38,11 @@ def predicate_extractor(
             message=f"Parsing error at line {err.line}, column {err.column}. "
             f"'{err}' in '{predicates}'",
         )
+    except Exception as err:
+        # Some malformed expressions make the parser itself fail.
+        return result.PermFail(
+            message=f"Unable to parse '{predicates}'. {type(err).__name__}: '{err}'",
+        )
 
     program.logger.setLevel(logging.WARNING)
     return program
-- 
2.43.0


From db38527e9161f11fc273364082290c8bcf9ede8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 18/22] fix: reject kinds which can not name a class

Preparing a ResourceFunction raised if `spec.apiConfig.kind` contains characters
which may not be used to name a class.
---
 src/koreo/resource_function/prepare.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index ab7307a..278c8c6 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -234,13 +234,19 @@ def _prepare_api_config(
         namespaced=spec.get("namespaced"),
     )
     if not resource_api:
-        resource_api = kr8s.objects.new_class(
-            version=api_version,
-            kind=kind,
-            plural=plural,
-            namespaced=namespaced,
-            asyncio=True,
-        )
+        try:
+            resource_api = kr8s.objects.new_class(
+                version=api_version,
+                kind=kind,
+                plural=plural,
+                namespaced=namespaced,
+                asyncio=True,
+            )
+        except ValueError as err:
+            return PermFail(
+                message=f"`apiVersion` {api_version!r} and `kind` {kind!r} are not valid ({err})"
+            )
+
     return (resource_api, resource_id, owned, readonly, delete_if_exists)
 
 
-- 
2.43.0


From f5f01915325adc6cbbde74322e39ed6ad16a4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 19/22] fix: values which CEL can not represent are a PermFail

---
 src/koreo/cel/prepare.py               | 14 ++++++++++++++
 src/koreo/resource_template/prepare.py | 18 +++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index cb6b9a5..0ce5066 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -2,6 +2,7 @@ from typing import Any, NamedTuple
 import logging
 
 import celpy
+from celpy import celtypes
 
 from koreo.cel.encoder import encode_cel
 from koreo.cel.functions import koreo_cel_functions
@@ -50,6 +51,19 @@ def prepare_map_expression(
     return prepare_expression(cel_env=cel_env, spec=spec, location=location)
 
 
+def prepare_static_value(
+    spec: Any | None, location: str
+) -> celtypes.Value | PermFail:
+    try:
+        return celpy.json_to_cel(spec)
+    except Exception as err:
+        # CEL is not able to represent every JSON value, such as large integers.
+        return PermFail(
+            message=f"Can not represent {location}. {type(err).__name__}: '{err}'",
+            location=location,
+        )
+
+
 Index = dict[str, "Index"] | int
 
 
diff --git a/src/koreo/resource_template/prepare.py b/src/koreo/resource_template/prepare.py
index 35936e3..2ac1f1a 100644
--- a/src/koreo/resource_template/prepare.py
+++ b/src/koreo/resource_template/prepare.py
@@ -2,10 +2,10 @@ import logging
 
 logger = logging.getLogger("koreo.resourcetemplate.prepare")
 
-import celpy
 from celpy import celtypes
 
 from koreo import schema
+from koreo.cel.prepare import prepare_static_value
 from koreo.result import PermFail, UnwrappedOutcome
 
 from . import structure
@@ -25,7 +25,13 @@ async def prepare_resource_template(
         )
 
     template_spec = spec.get("template", {})
-    template = celpy.json_to_cel(template_spec)
+    template = prepare_static_value(template_spec, location="spec.template")
+    if isinstance(template, PermFail):
+        return PermFail(
+            message=template.message,
+            location=f"prepare:ResourceTemplate:{cache_key}",
+        )
+
     if not template_spec:
         return PermFail(
             message=f"Missing `spec.template` for ResourceTemplate '{cache_key}'.",
@@ -49,7 +55,13 @@ async def prepare_resource_template(
             location=f"prepare:ResourceTemplate:{cache_key}",
         )
 
-    context = celpy.json_to_cel(spec.get("context", {}))
+    context = prepare_static_value(spec.get("context", {}), location="spec.context")
+    if isinstance(context, PermFail):
+        return PermFail(
+            message=context.message,
+            location=f"prepare:ResourceTemplate:{cache_key}",
+        )
+
     if not isinstance(context, celtypes.MapType):
         return PermFail(
             message=f"ResourceTemplate '{cache_key}' `spec.context` ('{context}') must be an object.",
-- 
2.43.0


From cf4afcd3229053047333272d0a52359a7c2fee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 20/22] fix: an integral retry delay may be written as a float

---
 src/koreo/predicate_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 027101d..f279939 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -68,7 +68,7 @@ def predicate_to_koreo_result(
             case {"assert": _, "retry": {"message": message, "delay": delay}}:
                 return result.Retry(
                     message=f"{message}",
-                    delay=int(f"{delay}"),
+                    delay=int(delay),
                     location=location,
                 )
 
-- 
2.43.0


From 135e813515f4ea460df139740695f9761b6438ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 21/22] fix: a malformed forEach condition is a PermFail

---
 src/koreo/workflow/prepare.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 4693194..8b3ee21 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -454,6 +454,14 @@ def _prepare_for_each(
     condition_spec = spec.get("condition")
     if not condition_spec:
         condition = None
+    elif not isinstance(condition_spec, dict):
+        return structure.ErrorStep(
+            label=step_label,
+            outcome=PermFail(
+                message=f"`{step_label}.forEach.condition` must be an object, can not prepare Workflow."
+            ),
+            condition=None,
+        )
     else:
         condition = structure.StepConditionSpec(
             type_=condition_spec.get("type"),
-- 
2.43.0


From a65c72a48f901cbfa3fbd713d2f59fa932a64693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 22/22] fix: an expression's string result is always a CEL
 string

Concatenations evaluate to a plain `str`, so a refSwitch on one never selected
a case and FunctionTests did not watch ResourceTemplates named by one.
---
 src/koreo/cel/evaluation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index 4f49b61..1a63e78 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -25,6 +25,10 @@ def evaluate(
         if eval_errors := check_for_celevalerror(expression_value, location):
             return eval_errors
 
+        if isinstance(expression_value, str):
+            # Some operations, such as concatenation, give a plain `str`.
+            return celtypes.StringType(expression_value)
+
         return expression_value
 
     except celpy.CELEvalError as err:
-- 
2.43.0

