From 780be6f7a9b00e47760b6ff13f68960f2f62c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 01/29] fix: bytes2str_in_dicts converts every list element,
 not only the first

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index bfae73d..4cada5e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -74,7 +74,7 @@ def bytes2str_in_dicts(
     if isinstance(inp, MutableSequence):
         for idx, value in enumerate(inp):
             inp[idx] = bytes2str_in_dicts(value)
-            return inp
+        return inp
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From fc56bd9fc8fd2e9c7e79fa972e571e822839383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 02/29] fix: index 0 into an empty list is out of range in a
 parameter reference

---
 src/cwl_utils/sandboxjs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index ab4b624..d22dbb0 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -567,7 +567,7 @@ class NodeJSEngine(JSEngine):
                         "%s is a %s, cannot index on int '%s'"
                         % (parsed_string, type(current_value).__name__, key)
                     )
-                if key and key >= len(current_value):
+                if key >= len(current_value):
                     raise WorkflowException(
                         "%s list index %i out of range" % (parsed_string, key)
                     )
-- 
2.43.0


From 6267b1502384a2e5fbb47f9a760f6eeea327ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 03/29] fix: _compare_type inspects both of its arguments

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index f80c74b..58d404b 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -27,7 +27,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 838922e..bc0c96e 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -58,7 +58,7 @@ def _compare_records(
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index e0f94e2..323910e 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -28,7 +28,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
-- 
2.43.0


From ebd394cfe21442f28860b593d614cba4661466e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 04/29] fix: check_format checks every file of a list, not only
 up to the first match

---
 src/cwl_utils/file_formats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/file_formats.py b/src/cwl_utils/file_formats.py
index 8c1b51f..5f357fe 100644
--- a/src/cwl_utils/file_formats.py
+++ b/src/cwl_utils/file_formats.py
@@ -64,7 +64,8 @@ def check_format(
             if afile["format"] == inpf or formatSubclassOf(
                 afile["format"], inpf, ontology, set()
             ):
-                return
-        raise ValidationException(
-            f"File has an incompatible format: {json_dumps(afile, indent=4)}"
-        )
+                break
+        else:
+            raise ValidationException(
+                f"File has an incompatible format: {json_dumps(afile, indent=4)}"
+            )
-- 
2.43.0


From 027ca9c9723cc9a17d69016736d971fd79f6be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 05/29] fix: resolve nested $import/$include relative to the
 imported file

---
 src/cwl_utils/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c90dd50..623a415 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -174,6 +174,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
         return cwl
 
     for k, v in itr:
+        this_base_url = base_url
         if isinstance(v, dict):
             if len(v) == 1:
                 _k = list(v.keys())[0]
@@ -182,7 +183,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                         base_url, v[_k], is_import=_k == "$import"
                     )
 
-        cwl[k] = resolve_imports(cwl[k], base_url)
+        cwl[k] = resolve_imports(cwl[k], this_base_url)
 
     return cwl
 
-- 
2.43.0


From 3a6e89a12626b1623dea4ce79b4a5563c67d3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 06/29] fix: report array/record types without items/fields
 instead of crashing

---
 src/cwl_utils/schemadef.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9c72dd6..0981e78 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -208,7 +208,7 @@ def _inline_type(
         elif _type == "array":
             if "items" not in v:
                 raise errors.ArrayMissingItems(
-                    f"In file {base_url.geturl()}, array type {_type.get('name')} is missing 'items'"
+                    f"In file {base_url.geturl()}, array type {v.get('name')} is missing 'items'"
                 )
 
             v["items"] = _inline_type(v["items"], base_url, user_defined_types)
@@ -217,7 +217,7 @@ def _inline_type(
         elif _type == "record":
             if "fields" not in v:
                 raise errors.RecordMissingFields(
-                    f"In file {base_url.geturl()}, record type {_type.get('name')} is missing 'fields'"
+                    f"In file {base_url.geturl()}, record type {v.get('name')} is missing 'fields'"
                 )
 
             fields = utils.normalize_to_list(
-- 
2.43.0


From 37f4ff2071f20987de14ddb5102c67fbdd86abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 07/29] fix: do not double the dependency list at every
 referenced definition

---
 src/cwl_utils/inputs_schema_gen.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index a3592a5..4f7d2f4 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -506,12 +506,11 @@ def get_property_dependencies(
         if reference_value not in existing_property_dependencies:
             existing_property_dependencies.append(reference_value)
             # Get the property dependencies of the reference value
-            existing_property_dependencies.extend(
-                get_property_dependencies(
-                    input_json_schema["definitions"][reference_value],
-                    input_json_schema,
-                    existing_property_dependencies,
-                )
+            # (existing_property_dependencies is updated in place)
+            get_property_dependencies(
+                input_json_schema["definitions"][reference_value],
+                input_json_schema,
+                existing_property_dependencies,
             )
 
     return existing_property_dependencies
-- 
2.43.0


From 68cdad3cf8c5654bc0b7ccc7b6a927db2009dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 08/29] fix: force pulling an image that was not saved before

---
 src/cwl_utils/image_puller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 5604002..9f03a5c 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -70,7 +70,7 @@ class DockerImagePuller(ImagePuller):
         if self.save_directory:
             dest = Path(self.save_directory, self.get_image_name())
             if self.save_directory and self.force_pull:
-                dest.unlink()
+                dest.unlink(missing_ok=True)
             cmd_save = [
                 self.cmd,
                 "save",
-- 
2.43.0


From 246762318b4253feb9508d2d9cc14880031b443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 09/29] fix: quote literal text when converting an
 interpolation to an expression

---
 src/cwl_utils/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 0b74a44..1e88d15 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -217,7 +217,7 @@ def interpolate(
     w = scanner(scan)
     while w:
         if convert_to_expression:
-            parts.append(f'"{scan[0: w[0]]}" + ')  # noqa: B907
+            parts.append(dump(scan[0 : w[0]]))
         else:
             parts.append(scan[0 : w[0]])
 
@@ -266,7 +266,7 @@ def interpolate(
         scan = scan[w[1] :]
         w = scanner(scan)
     if convert_to_expression:
-        parts.extend((f'"{scan}"', ";}"))  # noqa: B907
+        parts.extend((json.dumps(scan), ";}"))
     else:
         parts.append(scan)
     return "".join(parts)
-- 
2.43.0


From ebab1c54fa1a454b40712f073ba15cfc569323a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 10/29] fix: graph-split only shortens references into the same
 process

---
 src/cwl_utils/graph_split.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8a1ef14..ab9d3ad 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -181,13 +181,14 @@ def rewrite(
                 match key:
                     case "run" if isinstance(value, str) and value[0] == "#":
                         document[key] = f"{re.sub('.cwl$', '', value[1:])}.cwl"
-                    case "id" | "outputSource" if value.startswith("#" + doc_id):
-                        document[key] = value[len(doc_id) + 2 :]
+                    case "id" | "outputSource" if isinstance(value, str):
+                        if value.startswith(f"#{doc_id}/"):
+                            document[key] = value[len(doc_id) + 2 :]
                     case "out" if isinstance(value, list):
                         document[key][:] = [
                             rewrite_id(entry, this_id) for entry in value
                         ]
-                    case "source" | "scatter" | "items" | "format":
+                    case "source" | "outputSource" | "scatter" | "items" | "format":
                         if (
                             isinstance(value, str)
                             and value.startswith("#")
@@ -201,7 +202,9 @@ def rewrite(
                         elif isinstance(value, list):
                             new_sources = []
                             for entry in value:
-                                if entry.startswith("#" + doc_id):
+                                if isinstance(entry, str) and entry.startswith(
+                                    f"#{doc_id}/"
+                                ):
                                     new_sources.append(entry[len(doc_id) + 2 :])
                                 else:
                                     new_sources.append(entry)
-- 
2.43.0


From 5cb7a080ab750ea8932a3c71e9414caa87f9cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 11/29] fix: graph-split only strips a literal .cwl suffix from
 file names

---
 src/cwl_utils/graph_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index ab9d3ad..1ce55ec 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -145,7 +145,7 @@ def graph_split(
             else:
                 entry_id = mainfile
 
-        output_file = output_dir / (re.sub(".cwl$", "", entry_id) + ".cwl")
+        output_file = output_dir / (re.sub(r"[.]cwl$", "", entry_id) + ".cwl")
         if output_format == "json":
             json_dump(entry, output_file)
         elif output_format == "yaml":
@@ -180,7 +180,7 @@ def rewrite(
             with SourceLine(document, key, Exception):
                 match key:
                     case "run" if isinstance(value, str) and value[0] == "#":
-                        document[key] = f"{re.sub('.cwl$', '', value[1:])}.cwl"
+                        document[key] = f"{re.sub(r'[.]cwl$', '', value[1:])}.cwl"
                     case "id" | "outputSource" if isinstance(value, str):
                         if value.startswith(f"#{doc_id}/"):
                             document[key] = value[len(doc_id) + 2 :]
-- 
2.43.0


From 6520229eac55f99b7c87b2156c5098591c66c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 12/29] fix: docker-extract adds the default tag for steps and
 for registries with a port

---
 src/cwl_utils/docker_extract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index f67163d..6fa633a 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -97,7 +97,9 @@ def extract_docker_requirements(
 ) -> Iterator[cwl.DockerRequirement]:
     """Yield an iterator of the docker reqs, normalizing the pull request."""
     for req in extract_docker_reqs(process):
-        if isinstance(req.dockerPull, str) and ":" not in req.dockerPull:
+        if isinstance(req.dockerPull, str) and ":" not in (
+            req.dockerPull.rpartition("/")[2]
+        ):
             req.dockerPull += ":latest"
         yield req
 
@@ -131,7 +133,7 @@ def get_process_from_step(step: cwl.WorkflowStep) -> cwl.Process:
 def traverse_workflow(workflow: cwl.Workflow) -> Iterator[cwl.DockerRequirement]:
     """Iterate over the steps of this workflow, yielding the docker reqs."""
     for step in workflow.steps:
-        yield from extract_docker_reqs(step)
+        yield from extract_docker_requirements(step)
         yield from traverse(get_process_from_step(step))
 
 
-- 
2.43.0


From 3af233f333a3f1b420b803726ecf61bcb52c7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 13/29] fix: load_document honours load_all for serialized
 documents

---
 src/cwl_utils/parser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e7fef0d..8626d61 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -361,7 +361,7 @@ def load_document(
     if baseuri is None:
         baseuri = schema_salad.runtime.file_uri(str(Path.cwd())) + "/"
     if isinstance(doc, str):
-        return load_document_by_string(doc, baseuri, loadingOptions, id_)
+        return load_document_by_string(doc, baseuri, loadingOptions, id_, load_all)
     return load_document_by_yaml(doc, baseuri, loadingOptions, id_, load_all)
 
 
-- 
2.43.0


From 82106ddad7033b61dcfc4f0625a66f787b3e07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 14/29] fix: saving an empty list does not fail

---
 src/cwl_utils/parser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 8626d61..1b075b6 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -428,7 +428,7 @@ def save(
                 save(v, top=top, base_url=base_url, relative_uris=relative_uris)
                 for v in val
             ]
-            if top and all(is_process(v) for v in val):
+            if top and lst and all(is_process(v) for v in val):
                 vers = [
                     e.get("cwlVersion") for i, e in enumerate(lst) if is_process(val[i])
                 ]
-- 
2.43.0


From 1d94bec647740c5d4523478be98c8296bf64b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 15/29] fix: truncating loadContents in the middle of a
 character does not fail

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 5 ++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 58d404b..1c88626 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: Apache-2.0
 import hashlib
 import logging
+from codecs import utf_8_decode
 from collections import namedtuple
 from collections.abc import MutableMapping, MutableSequence
 from io import StringIO
@@ -170,7 +171,9 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
 
     Truncate content for larger files.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    # a character that was cut in two by the truncation is dropped
+    return utf_8_decode(contents, "strict", len(contents) < CONTENT_LIMIT)[0]
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index bc0c96e..cf83cd2 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: Apache-2.0
 import hashlib
 import logging
+from codecs import utf_8_decode
 from collections import namedtuple
 from collections.abc import MutableMapping, MutableSequence
 from io import StringIO
@@ -236,7 +237,9 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
 
     Truncate content for larger files.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    # a character that was cut in two by the truncation is dropped
+    return utf_8_decode(contents, "strict", len(contents) < CONTENT_LIMIT)[0]
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
-- 
2.43.0


From f05dd2c4cdc9c1afde22753b1b61ff3df43af7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 16/29] fix: normalize_to_list keeps entries apart that share
 one YAML-aliased value

---
 src/cwl_utils/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 4cada5e..22ac871 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -157,6 +157,7 @@ def normalize_to_list(
                 if value_field is None:
                     raise RuntimeError(f"Expecting a dict here, got {v}")
                 v = {value_field: v}
+            v = v.copy()  # the same object may stand under several keys
             v.update({key_field: k})
             map_list += [v]
         return map_list
-- 
2.43.0


From 9930c38a00900ddf9c7e0988abcd5fb1eaa93851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:34 +0000
Subject: [PATCH 17/29] fix: the link check reports an unknown source in a list
 by name

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 1c88626..5f175ae 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -135,6 +135,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index cf83cd2..47c27c7 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -201,6 +201,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 323910e..ce90ef4 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -161,6 +161,10 @@ def check_all_types(
                     linkMerge = None
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
-- 
2.43.0


From 4ff19207a3f7230bfb2c4d34a6ad28813f8dedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 18/29] fix: the v1.2 link check honours linkMerge of lists
 that do not have several sources

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index ce90ef4..f459448 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -153,7 +153,7 @@ def check_all_types(
             case _:
                 continue
         if sourceField is not None:
-            if isinstance(sourceField, MutableSequence) and len(sourceField) > 1:
+            if isinstance(sourceField, MutableSequence) and len(sourceField) != 1:
                 linkMerge: str | None = sink.linkMerge or (
                     "merge_nested" if len(sourceField) > 1 else None
                 )
@@ -201,7 +201,12 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = (
+                    sink.linkMerge
+                    if isinstance(sourceField, MutableSequence)
+                    and sink.pickValue not in ("first_non_null", "the_only_non_null")
+                    else None
+                )
                 if sink.pickValue is not None:
                     validation["warning"].append(
                         SrcSink(
-- 
2.43.0


From f3d3fedb9a7f3d171a434124b354532a8b660c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 19/29] fix: the v1.2 link check does not change the types of
 sources that other sinks share

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index f459448..88c2a4c 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -160,17 +160,19 @@ def check_all_types(
                 if sink.pickValue in ("first_non_null", "the_only_non_null"):
                     linkMerge = None
                 srcs_of_sink = []
+                src_types = []
                 for parm_id in sourceField:
                     if parm_id not in src_dict:
                         raise SourceLine(
                             sink, sourceName, ValidationException
                         ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
+                    src_typ = type_dict[src_dict[parm_id].id]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
                         and sink.pickValue is None
                     ):
-                        src_typ = aslist(type_dict[src_dict[parm_id].id])
+                        src_typ = aslist(src_typ)
                         if "null" not in src_typ:
                             src_typ = ["null"] + cast(list[Any], src_typ)
                         if (
@@ -185,12 +187,9 @@ def check_all_types(
                                     message="Source is from conditional step, but pickValue is not used",
                                 )
                             )
-                        type_dict[src_dict[parm_id].id] = src_typ
                     if _is_all_output_method_loop_step(param_to_step, parm_id):
-                        src_typ = type_dict[src_dict[parm_id].id]
-                        type_dict[src_dict[parm_id].id] = ArraySchema(
-                            items=src_typ, type_="array"
-                        )
+                        src_typ = ArraySchema(items=src_typ, type_="array")
+                    src_types.append(src_typ)
             else:
                 if isinstance(sourceField, MutableSequence):
                     parm_id = cast(str, sourceField[0])
@@ -216,8 +215,9 @@ def check_all_types(
                             message="pickValue is used but only a single input source is declared",
                         )
                     )
+                src_typ = type_dict[src_dict[parm_id].id]
                 if _is_conditional_step(param_to_step, parm_id):
-                    src_typ = aslist(type_dict[src_dict[parm_id].id])
+                    src_typ = aslist(src_typ)
                     snk_typ = type_dict[sink.id]
                     if "null" not in src_typ:
                         src_typ = ["null"] + cast(list[Any], src_typ)
@@ -233,15 +233,12 @@ def check_all_types(
                                 message="Source is from conditional step and may produce `null`",
                             )
                         )
-                    type_dict[src_dict[parm_id].id] = src_typ
                 if _is_all_output_method_loop_step(param_to_step, parm_id):
-                    src_typ = type_dict[src_dict[parm_id].id]
-                    type_dict[src_dict[parm_id].id] = ArraySchema(
-                        items=src_typ, type_="array"
-                    )
-            for src in srcs_of_sink:
+                    src_typ = ArraySchema(items=src_typ, type_="array")
+                src_types = [src_typ]
+            for src, src_typ in zip(srcs_of_sink, src_types):
                 check_result = cwl_utils.parser.utils.check_types(
-                    type_dict[cast(str, src.id)],
+                    src_typ,
                     sink_type,
                     linkMerge,
                     getattr(sink, "valueFrom", None),
-- 
2.43.0


From 6a209f3048593a2eabe3d4b95c539802abfb2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:09 +0000
Subject: [PATCH 20/29] fix: type_for_source keeps sources apart whose types
 differ after scattering

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 9 ++++-----
 src/cwl_utils/parser/cwl_v1_1_utils.py | 9 ++++-----
 src/cwl_utils/parser/cwl_v1_2_utils.py | 9 ++++-----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 5f175ae..8c778a7 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -339,11 +339,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -354,7 +352,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 47c27c7..3b7547b 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -421,11 +421,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -436,7 +434,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 88c2a4c..2240204 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -453,11 +453,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -468,7 +466,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
-- 
2.43.0


From 5448763575485c1539b184d2e50b83754f5a94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:57 +0000
Subject: [PATCH 21/29] fix: comparing v1.0 output records does not need their
 name

---
 src/cwl_utils/parser/utils.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 2669616..b60b17e 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -26,8 +26,6 @@ from cwl_utils.parser import (
     cwl_v1_1_utils,
     cwl_v1_2,
     cwl_v1_2_utils,
-    InputRecordSchema,
-    CommandOutputRecordSchema,
     CommandInputParameter,
     CommandOutputParameter,
     WorkflowInputParameter,
@@ -60,14 +58,8 @@ def _compare_records(
             _logger.info(
                 "Record comparison failure for %s and %s\n"
                 "Did not match fields for %s: %s and %s",
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    src,
-                ).name,
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    sink,
-                ).name,
+                getattr(src, "name", None),  # absent in v1.0 output records
+                getattr(sink, "name", None),
                 key,
                 srcfields.get(key),
                 sinkfields.get(key),
-- 
2.43.0


From 5fccde64cd736d0c9605ac90a6050fa70a2c78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 22/29] fix: comparing unions of source types looks at the
 members of both

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 3 +++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 3 +++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 8c778a7..8416838 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -47,6 +47,9 @@ def _compare_type(type1: Any, type2: Any) -> bool:
             for t3 in type1:
                 if not any(_compare_type(t3, t2) for t2 in type2):
                     return False
+            for t4 in type2:
+                if not any(_compare_type(t4, t2) for t2 in type1):
+                    return False
             return True
     return bool(type1 == type2)
 
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 3b7547b..4ae1bac 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -78,6 +78,9 @@ def _compare_type(type1: Any, type2: Any) -> bool:
             for t3 in type1:
                 if not any(_compare_type(t3, t2) for t2 in type2):
                     return False
+            for t4 in type2:
+                if not any(_compare_type(t4, t2) for t2 in type1):
+                    return False
             return True
     return bool(type1 == type2)
 
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 2240204..49f94b8 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -47,6 +47,9 @@ def _compare_type(type1: Any, type2: Any) -> bool:
             for t3 in type1:
                 if not any(_compare_type(t3, t2) for t2 in type2):
                     return False
+            for t4 in type2:
+                if not any(_compare_type(t4, t2) for t2 in type1):
+                    return False
             return True
     return bool(type1 == type2)
 
-- 
2.43.0


From b6df2ccb6cde074f0a0f6b05ab70b1d5daa5a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:11 +0000
Subject: [PATCH 23/29] fix: schema generation defines enums, arrays and empty
 records of SchemaDefRequirement

---
 src/cwl_utils/inputs_schema_gen.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 4f7d2f4..0412e1e 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -270,12 +270,21 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
     :param schema:
     :return:
     """
+    schema_name = get_value_from_uri(str(getattr(schema, "name", None)))
+
+    if getattr(schema, "fields", None) is None:
+        # An enum, an array, or a record without fields
+        if not schema_name:
+            return {}
+        return {
+            to_pascal_case(schema_name): JSONSchemaProperty(
+                name=schema_name, type_=schema
+            ).type_dict
+        }
+
     # Sanitise each field of the schema
     sanitised_fields = {}
 
-    if schema.fields is None:
-        return {}
-
     for field in schema.fields:
         sanitised_fields.update(
             {
@@ -317,7 +326,7 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
         property_list.append(prop)
 
     return {
-        to_pascal_case(get_value_from_uri(str(schema.name))): {
+        to_pascal_case(schema_name): {
             "type": "object",
             "properties": {prop.name: prop.type_dict for prop in property_list},
             "required": [prop.name for prop in property_list if prop.required],
-- 
2.43.0


From 3c455742fabcfe2194459dc03b38f2167a12385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:43 +0000
Subject: [PATCH 24/29] fix: packing normalizes the sources of lists as well

---
 src/cwl_utils/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 623a415..03658f9 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -117,6 +117,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
                 _src = _input.get("source")
                 if isinstance(_src, str):
                     _input["source"] = _normalize(_input["source"])
+                elif isinstance(_src, list):
+                    _input["source"] = [_normalize(s) for s in _src]
 
     _outputs = cwl.get("outputs", {})
     for k, _output in enumerate(_outputs):
@@ -126,6 +128,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
             _src = _output.get("outputSource")
             if isinstance(_src, str):
                 _output["outputSource"] = _normalize(_output["outputSource"])
+            elif isinstance(_src, list):
+                _output["outputSource"] = [_normalize(s) for s in _src]
 
     return cwl
 
-- 
2.43.0


From 57442a812bbaa3635e49153292bf7b957693a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:43 +0000
Subject: [PATCH 25/29] fix: packing follows an import of a file that is itself
 an import

---
 src/cwl_utils/pack.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 03658f9..84da6d2 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -179,15 +179,16 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
 
     for k, v in itr:
         this_base_url = base_url
-        if isinstance(v, dict):
-            if len(v) == 1:
-                _k = list(v.keys())[0]
-                if _k in ("$import", "$include"):
-                    cwl[k], this_base_url = utils.load_linked_file(
-                        base_url, v[_k], is_import=_k == "$import"
-                    )
-
-        cwl[k] = resolve_imports(cwl[k], this_base_url)
+        while isinstance(v, dict) and len(v) == 1:
+            _k = list(v.keys())[0]
+            if _k not in ("$import", "$include"):
+                break
+            # the linked file may consist of a single import itself
+            v, this_base_url = utils.load_linked_file(
+                this_base_url, v[_k], is_import=_k == "$import"
+            )
+
+        cwl[k] = resolve_imports(v, this_base_url)
 
     return cwl
 
-- 
2.43.0


From d8e96632636acf3c3dc2013d5ea3161450ec1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:43 +0000
Subject: [PATCH 26/29] fix: packing resolves an imported run against its own
 location

---
 src/cwl_utils/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 84da6d2..777dc92 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -96,6 +96,10 @@ def listify_everything(cwl: dict[str, Any]) -> dict[str, Any]:
             v["in"] = utils.normalize_to_list(
                 v.get("in", []), key_field="id", value_field="source"
             )
+            _run = v.get("run")
+            if isinstance(_run, dict) and list(_run) == ["$import"]:
+                # the same as a link, which resolve_steps loads with its location
+                v["run"] = _run["$import"]
 
     return cwl
 
-- 
2.43.0


From e085e203a4ebb8758d62b0a183de85bafcf7e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:23 +0000
Subject: [PATCH 27/29] fix: packing keeps imports of type definitions of
 inline processes until they are read

---
 src/cwl_utils/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 777dc92..ecba2ce 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -58,13 +58,14 @@ def pack_process(
     cwl = normalize_sources(cwl)
     cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
     cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
-    cwl = resolve_imports(cwl, base_url)
+    # processes given inline resolve their own imports, after their type definitions
     cwl = resolve_steps(
         cwl,
         base_url,
         cwl.get("cwlVersion", cwl_version),
         user_defined_types,
     )
+    cwl = resolve_imports(cwl, base_url)
     cwl = add_missing_requirements(cwl)
     return cwl
 
-- 
2.43.0


From fba38099d7b3dd438e20302cabde362da8c0567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 28/29] fix: expanding the stdout shortcut collects the file
 and leaves the tool as it was

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 4 +++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 4 +++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index d584224..cc836b1 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -52,7 +52,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 685520e..aca6e4f 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -52,7 +52,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index eca589a..1951f5e 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -51,7 +51,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
-- 
2.43.0


From b2757828e841d7ab91c10e0b5e7185f6d1726d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:35 +0000
Subject: [PATCH 29/29] fix: an expression tool converted to a command line
 tool still loads contents and listings

---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 ++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index aca6e4f..56fb57d 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -176,6 +176,8 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 1951f5e..50d68ae 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -175,6 +175,8 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
-- 
2.43.0

