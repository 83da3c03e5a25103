From 370b6740cf5f7ec3a0f38386e4f2309b558a7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 01/52] fix: convert every element of a list in
 bytes2str_in_dicts, not only the first

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index bfae73d..4cada5e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -74,7 +74,7 @@ def bytes2str_in_dicts(
     if isinstance(inp, MutableSequence):
         for idx, value in enumerate(inp):
             inp[idx] = bytes2str_in_dicts(value)
-            return inp
+        return inp
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From 834ee62fd36459b09b9d32680396d43997416580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 02/52] fix: check the format of every file of a list, not only
 the first

---
 src/cwl_utils/file_formats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/file_formats.py b/src/cwl_utils/file_formats.py
index 8c1b51f..5f357fe 100644
--- a/src/cwl_utils/file_formats.py
+++ b/src/cwl_utils/file_formats.py
@@ -64,7 +64,8 @@ def check_format(
             if afile["format"] == inpf or formatSubclassOf(
                 afile["format"], inpf, ontology, set()
             ):
-                return
-        raise ValidationException(
-            f"File has an incompatible format: {json_dumps(afile, indent=4)}"
-        )
+                break
+        else:
+            raise ValidationException(
+                f"File has an incompatible format: {json_dumps(afile, indent=4)}"
+            )
-- 
2.43.0


From 888778367016ebf2e02a487f3d6d926db042183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 03/52] fix: do not fail a forced docker pull when there is no
 earlier image file

---
 src/cwl_utils/image_puller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 5604002..9f03a5c 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -70,7 +70,7 @@ class DockerImagePuller(ImagePuller):
         if self.save_directory:
             dest = Path(self.save_directory, self.get_image_name())
             if self.save_directory and self.force_pull:
-                dest.unlink()
+                dest.unlink(missing_ok=True)
             cmd_save = [
                 self.cmd,
                 "save",
-- 
2.43.0


From a6d3b70112f96959518258879fc9c5ffefc39b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 04/52] fix: normalise the image names of workflow step
 requirements in docker extract

---
 src/cwl_utils/docker_extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index f67163d..15ef2ae 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -131,7 +131,7 @@ def get_process_from_step(step: cwl.WorkflowStep) -> cwl.Process:
 def traverse_workflow(workflow: cwl.Workflow) -> Iterator[cwl.DockerRequirement]:
     """Iterate over the steps of this workflow, yielding the docker reqs."""
     for step in workflow.steps:
-        yield from extract_docker_reqs(step)
+        yield from extract_docker_requirements(step)
         yield from traverse(get_process_from_step(step))
 
 
-- 
2.43.0


From 8ce37031e424d4e348f8006ba3629cd0ebeb09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 05/52] fix: resolve imports of an imported file relative to
 that file when packing

---
 src/cwl_utils/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c90dd50..623a415 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -174,6 +174,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
         return cwl
 
     for k, v in itr:
+        this_base_url = base_url
         if isinstance(v, dict):
             if len(v) == 1:
                 _k = list(v.keys())[0]
@@ -182,7 +183,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                         base_url, v[_k], is_import=_k == "$import"
                     )
 
-        cwl[k] = resolve_imports(cwl[k], base_url)
+        cwl[k] = resolve_imports(cwl[k], this_base_url)
 
     return cwl
 
-- 
2.43.0


From ac19df08fa41242da8960ba3168272ba7f19c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 06/52] fix: report malformed array and record types with the
 intended errors

---
 src/cwl_utils/schemadef.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9c72dd6..0981e78 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -208,7 +208,7 @@ def _inline_type(
         elif _type == "array":
             if "items" not in v:
                 raise errors.ArrayMissingItems(
-                    f"In file {base_url.geturl()}, array type {_type.get('name')} is missing 'items'"
+                    f"In file {base_url.geturl()}, array type {v.get('name')} is missing 'items'"
                 )
 
             v["items"] = _inline_type(v["items"], base_url, user_defined_types)
@@ -217,7 +217,7 @@ def _inline_type(
         elif _type == "record":
             if "fields" not in v:
                 raise errors.RecordMissingFields(
-                    f"In file {base_url.geturl()}, record type {_type.get('name')} is missing 'fields'"
+                    f"In file {base_url.geturl()}, record type {v.get('name')} is missing 'fields'"
                 )
 
             fields = utils.normalize_to_list(
-- 
2.43.0


From 0e9c837357c5c68c8d76ccfa53e023b07a71dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 07/52] fix: accept relative paths in cwl-inputs-schema-gen

---
 src/cwl_utils/inputs_schema_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index a3592a5..46996df 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -576,7 +576,7 @@ def get_cwl_url(url: str) -> str:
         if not Path(url).exists():
             logging.error("The CWL URL is invalid.")
             raise FileNotFoundError
-        return Path(url).as_uri()
+        return Path(url).resolve().as_uri()
     elif is_local_uri(url):
         if not Path(urlparse(url).path).exists():
             logging.error("The CWL URL is invalid.")
-- 
2.43.0


From efed164ad202d5a240dccb25a6690d4c5ef9f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 08/52] fix: do not double the dependency list at each
 definition

---
 src/cwl_utils/inputs_schema_gen.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 46996df..1dae313 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -506,12 +506,11 @@ def get_property_dependencies(
         if reference_value not in existing_property_dependencies:
             existing_property_dependencies.append(reference_value)
             # Get the property dependencies of the reference value
-            existing_property_dependencies.extend(
-                get_property_dependencies(
-                    input_json_schema["definitions"][reference_value],
-                    input_json_schema,
-                    existing_property_dependencies,
-                )
+            # (which adds to the list it is given)
+            get_property_dependencies(
+                input_json_schema["definitions"][reference_value],
+                input_json_schema,
+                existing_property_dependencies,
             )
 
     return existing_property_dependencies
-- 
2.43.0


From 0d93702f5f8f2cf368bdb38bfd0ae46ce5992a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 09/52] fix: compare the two types given, not the first with
 itself

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index f80c74b..58d404b 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -27,7 +27,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 838922e..bc0c96e 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -58,7 +58,7 @@ def _compare_records(
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index e0f94e2..323910e 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -28,7 +28,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
-- 
2.43.0


From 1af2bb98e3bb398c1ffd3d23e58d7debcf1a7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 10/52] fix: honour load_all when loading a document from a
 string

---
 src/cwl_utils/parser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e7fef0d..8626d61 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -361,7 +361,7 @@ def load_document(
     if baseuri is None:
         baseuri = schema_salad.runtime.file_uri(str(Path.cwd())) + "/"
     if isinstance(doc, str):
-        return load_document_by_string(doc, baseuri, loadingOptions, id_)
+        return load_document_by_string(doc, baseuri, loadingOptions, id_, load_all)
     return load_document_by_yaml(doc, baseuri, loadingOptions, id_, load_all)
 
 
-- 
2.43.0


From fcf3f4cc248655b39a78407f51d4241a2a128f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 11/52] fix: refuse unknown CWL versions when inferring step
 types

---
 src/cwl_utils/parser/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 2669616..89da25d 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -590,6 +590,10 @@ def type_for_step_input(
             return cwl_v1_2_utils.type_for_step_input(
                 cast(cwl_v1_2.WorkflowStep, step), cast(cwl_v1_2.WorkflowStepInput, in_)
             )
+        case _:
+            raise ValidationException(
+                f"Version error. Did not recognise {cwlVersion} as a CWL version"
+            )
 
 
 def type_for_step_output(step: WorkflowStep, sourcename: str, cwlVersion: str) -> Any:
@@ -607,3 +611,7 @@ def type_for_step_output(step: WorkflowStep, sourcename: str, cwlVersion: str) -
             return cwl_v1_2_utils.type_for_step_output(
                 cast(cwl_v1_2.WorkflowStep, step), sourcename
             )
+        case _:
+            raise ValidationException(
+                f"Version error. Did not recognise {cwlVersion} as a CWL version"
+            )
-- 
2.43.0


From 1a14ef22cea1b6d7bb729655c279a71e0237b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 12/52] fix: close the parameter references generated for
 InitialWorkDirRequirement entries

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 10 +++++-----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 10 +++++-----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index d584224..12a532c 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -781,7 +781,7 @@ def process_workflow_reqs_and_hints(
                                     None,
                                     replace_etool,
                                 )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
+                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index})"
                                 generated_iwdr_reqs.append((etool_id, index))
                             elif isinstance(entry, cwl.Dirent):
                                 if entry.entry:
@@ -813,7 +813,7 @@ def process_workflow_reqs_and_hints(
                                                 replace_etool,
                                             )
                                             iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
+                                                "$(inputs._iwdr_listing_{})".format(
                                                     index
                                                 )
                                             )
@@ -854,7 +854,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
 
@@ -880,7 +880,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
                         if generated_iwdr_reqs:
@@ -1105,7 +1105,7 @@ def process_level_reqs(
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 685520e..348d1be 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -783,7 +783,7 @@ def process_workflow_reqs_and_hints(
                                     None,
                                     replace_etool,
                                 )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
+                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index})"
                                 generated_iwdr_reqs.append((etool_id, index))
                             elif isinstance(entry, cwl.Dirent):
                                 if entry.entry:
@@ -815,7 +815,7 @@ def process_workflow_reqs_and_hints(
                                                 replace_etool,
                                             )
                                             iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
+                                                "$(inputs._iwdr_listing_{})".format(
                                                     index
                                                 )
                                             )
@@ -856,7 +856,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
 
@@ -882,7 +882,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
                         if generated_iwdr_reqs:
@@ -1107,7 +1107,7 @@ def process_level_reqs(
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index eca589a..ec986b9 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -885,7 +885,7 @@ def process_workflow_reqs_and_hints(
                                     None,
                                     replace_etool,
                                 )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
+                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index})"
                                 generated_iwdr_reqs.append((etool_id, index))
                             elif isinstance(entry, cwl.Dirent):
                                 if entry.entry:
@@ -924,7 +924,7 @@ def process_workflow_reqs_and_hints(
                                                 replace_etool,
                                             )
                                             iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
+                                                "$(inputs._iwdr_listing_{})".format(
                                                     index
                                                 )
                                             )
@@ -965,7 +965,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
 
@@ -991,7 +991,7 @@ def process_workflow_reqs_and_hints(
                                             replace_etool,
                                         )
                                         iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
+                                            f"$(inputs._iwdr_listing_{index})"
                                         )
                                         generated_iwdr_reqs.append((etool_id, index))
                         if generated_iwdr_reqs:
@@ -1216,7 +1216,7 @@ def process_level_reqs(
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
-- 
2.43.0


From f116ba13b5d894897f3f66952cd24d507efbc98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 13/52] fix: make a refactored InitialWorkDirRequirement
 listing a string, not a tuple

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 12a532c..563a7bf 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1064,7 +1064,7 @@ def process_level_reqs(
                         process,
                     )
                     target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        "$(inputs._iwdr_listing)"
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 348d1be..53f3cc2 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1066,7 +1066,7 @@ def process_level_reqs(
                         process,
                     )
                     target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        "$(inputs._iwdr_listing)"
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index ec986b9..487dc01 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1175,7 +1175,7 @@ def process_level_reqs(
                         process,
                     )
                     target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        "$(inputs._iwdr_listing)"
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
-- 
2.43.0


From 6fcce833fb5277e35742c28e43c31f9ebf0ddb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 14/52] fix: pass id and source of the step input generated for
 an argument by name

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 4 +---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 4 +---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 563a7bf..b4f2069 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1272,9 +1272,7 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
                         target_clt, skip_command_line1
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 53f3cc2..1285d20 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1274,9 +1274,7 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
                         target_clt, skip_command_line1
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 487dc01..b1158ce 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1383,9 +1383,7 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
                         target_clt, skip_command_line1
-- 
2.43.0


From 7f5357885cce38c7ef5dba0d7d38a7c353ba44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 15/52] fix: address the envDef entry of a refactored
 EnvVarRequirement

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index b4f2069..c4a4214 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1008,7 +1008,7 @@ def process_level_reqs(
                             replace_etool,
                             process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 1285d20..d0d8623 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1010,7 +1010,7 @@ def process_level_reqs(
                             replace_etool,
                             process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b1158ce..b233bc0 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1119,7 +1119,7 @@ def process_level_reqs(
                             replace_etool,
                             process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
-- 
2.43.0


From 90e9b09601c00ad1bc7c174e0438a8e594ad9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 16/52] fix: name each generated InitialWorkDirRequirement step
 input after its own entry

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index c4a4214..f3a3396 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -940,7 +940,7 @@ def process_workflow_reqs_and_hints(
                 for entry in generated_iwdr_reqs:
                     step.in_.append(
                         cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
+                            id=f"_iwdr_listing_{entry[1]}",
                             source=f"{entry[0]}/result",
                         )
                     )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index d0d8623..f59e32f 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -942,7 +942,7 @@ def process_workflow_reqs_and_hints(
                 for entry in generated_iwdr_reqs:
                     step.in_.append(
                         cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
+                            id=f"_iwdr_listing_{entry[1]}",
                             source=f"{entry[0]}/result",
                         )
                     )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b233bc0..5acdbc1 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1051,7 +1051,7 @@ def process_workflow_reqs_and_hints(
                 for entry in generated_iwdr_reqs:
                     step.in_.append(
                         cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
+                            id=f"_iwdr_listing_{entry[1]}",
                             source=f"{entry[0]}/result",
                         )
                     )
-- 
2.43.0


From e6750e4282f476896e5679caf3c66263eeba0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 17/52] fix: bind the expanded stdout output, not the original,
 to its file

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 4 +++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 4 +++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index f3a3396..7ad8357 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -52,7 +52,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index f59e32f..486254e 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -52,7 +52,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 5acdbc1..4ed47e5 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -51,7 +51,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
-- 
2.43.0


From ba9a490920b32c2b6784e03e264f78894b75ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 18/52] fix: keep the short scatter names of the step generated
 for a when expression

---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 4ed47e5..5107c74 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -2192,7 +2192,6 @@ def replace_step_when_expr_with_etool(
     if isinstance(scatter, MutableSequence):
         for index, entry in enumerate(scatter):
             scatter[index] = entry.split("/")[-1]
-    scatter = step.scatter
     workflow.steps.append(
         cwl.WorkflowStep(
             id=etool_id,
-- 
2.43.0


From 9b761fb3f2f2ccd9b61c8c787059fd6310ea9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 19/52] fix: replace a File or Directory valued Dirent entry
 once, with its own step name

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 16 ----------------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 16 ----------------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 16 ----------------
 3 files changed, 48 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 7ad8357..e328f3d 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -806,22 +806,6 @@ def process_workflow_reqs_and_hints(
                                                 id=None,
                                                 type_=expr_result["class"],
                                             )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{})".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
                                         elif isinstance(expr_result, str):
                                             target = cwl.InputParameter(
                                                 id=None,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 486254e..9998111 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -808,22 +808,6 @@ def process_workflow_reqs_and_hints(
                                                 id=None,
                                                 type_=expr_result["class"],
                                             )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{})".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
                                         elif isinstance(expr_result, str):
                                             target = cwl.WorkflowInputParameter(
                                                 id=None,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 5107c74..49a758a 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -917,22 +917,6 @@ def process_workflow_reqs_and_hints(
                                                 id=None,
                                                 type_=expr_result["class"],
                                             )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{})".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
                                         elif isinstance(expr_result, str):
                                             target = cwl.WorkflowInputParameter(
                                                 id=None,
-- 
2.43.0


From 235dc4111ec4209771ebecf8f5055cbe05209bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 20/52] fix: report index 0 of an empty list as out of range

---
 src/cwl_utils/sandboxjs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index ab4b624..d22dbb0 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -567,7 +567,7 @@ class NodeJSEngine(JSEngine):
                         "%s is a %s, cannot index on int '%s'"
                         % (parsed_string, type(current_value).__name__, key)
                     )
-                if key and key >= len(current_value):
+                if key >= len(current_value):
                     raise WorkflowException(
                         "%s list index %i out of range" % (parsed_string, key)
                     )
-- 
2.43.0


From 509501b0a3f7e21f251b643916b59dcc171e0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 21/52] fix: honour --pretty for the type files of a split
 graph

---
 src/cwl_utils/graph_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8a1ef14..bfac7de 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -135,7 +135,7 @@ def graph_split(
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
         entry["cwlVersion"] = version
-        imports = rewrite(entry, entry_id, output_dir)
+        imports = rewrite(entry, entry_id, output_dir, pretty)
         if imports:
             for import_name in imports:
                 rewrite_types(entry, f"#{import_name}", False)
-- 
2.43.0


From 8ca61d6ed3d407a1dd61ff238b0a1f647042418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 22/52] fix: encode literal text as a JavaScript string when
 converting to an expression

---
 src/cwl_utils/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 0b74a44..1e88d15 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -217,7 +217,7 @@ def interpolate(
     w = scanner(scan)
     while w:
         if convert_to_expression:
-            parts.append(f'"{scan[0: w[0]]}" + ')  # noqa: B907
+            parts.append(dump(scan[0 : w[0]]))
         else:
             parts.append(scan[0 : w[0]])
 
@@ -266,7 +266,7 @@ def interpolate(
         scan = scan[w[1] :]
         w = scanner(scan)
     if convert_to_expression:
-        parts.extend((f'"{scan}"', ";}"))  # noqa: B907
+        parts.extend((json.dumps(scan), ";}"))
     else:
         parts.append(scan)
     return "".join(parts)
-- 
2.43.0


From 5508d9468fda1575c07356bf71149755d5e47b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 23/52] fix: split workflows whose outputs have several sources

---
 src/cwl_utils/graph_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index bfac7de..265fd85 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -181,13 +181,13 @@ def rewrite(
                 match key:
                     case "run" if isinstance(value, str) and value[0] == "#":
                         document[key] = f"{re.sub('.cwl$', '', value[1:])}.cwl"
-                    case "id" | "outputSource" if value.startswith("#" + doc_id):
+                    case "id" if value.startswith("#" + doc_id):
                         document[key] = value[len(doc_id) + 2 :]
                     case "out" if isinstance(value, list):
                         document[key][:] = [
                             rewrite_id(entry, this_id) for entry in value
                         ]
-                    case "source" | "scatter" | "items" | "format":
+                    case "source" | "outputSource" | "scatter" | "items" | "format":
                         if (
                             isinstance(value, str)
                             and value.startswith("#")
-- 
2.43.0


From b01c219dc51a228467be05cef307866d00b887e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 24/52] fix: normalise every source of a multi-source link when
 packing

---
 src/cwl_utils/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 623a415..03658f9 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -117,6 +117,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
                 _src = _input.get("source")
                 if isinstance(_src, str):
                     _input["source"] = _normalize(_input["source"])
+                elif isinstance(_src, list):
+                    _input["source"] = [_normalize(s) for s in _src]
 
     _outputs = cwl.get("outputs", {})
     for k, _output in enumerate(_outputs):
@@ -126,6 +128,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
             _src = _output.get("outputSource")
             if isinstance(_src, str):
                 _output["outputSource"] = _normalize(_output["outputSource"])
+            elif isinstance(_src, list):
+                _output["outputSource"] = [_normalize(s) for s in _src]
 
     return cwl
 
-- 
2.43.0


From 614cd07917151d6de485b18f5918bbd142f99c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 25/52] fix: name inlined types the same for every pack of a
 document

---
 src/cwl_utils/pack.py      | 1 +
 src/cwl_utils/schemadef.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 03658f9..b358b6d 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -274,6 +274,7 @@ def pack(cwl_path: str) -> dict[str, Any]:
     if "$graph" in cwl:
         # assume already packed
         return cwl
+    schemadef.reset_inline_type_names()
     cwl = pack_process(cwl, full_url, cwl["cwlVersion"])
 
     return cwl
diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 0981e78..59cef5e 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -136,6 +136,13 @@ _inline_type_name_uniq_id = 0
 _inline_type_names: set[str] = set()
 
 
+def reset_inline_type_names() -> None:
+    """Forget the type names given so far, at the start of a new document."""
+    global _inline_type_name_uniq_id
+    _inline_type_name_uniq_id = 0
+    _inline_type_names.clear()
+
+
 def _inline_type(
     v: Any, base_url: urllib.parse.ParseResult, user_defined_types: dict[str, Any]
 ) -> Any:
-- 
2.43.0


From 8ef69db12a037c36b3a37e3da193508d0130333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 26/52] fix: give the step of a refactored tool a usable id

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index e328f3d..de15a4b 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -290,7 +290,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 9998111..77e67be 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -290,7 +290,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 49a758a..abb46a5 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -291,7 +291,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
-- 
2.43.0


From 78cda2dfd89300f6abc6fa1528ef8a3102e68137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 27/52] fix: keep the replaced valueFrom and glob of a tool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 12 ++++++++----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 12 ++++++++----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index de15a4b..14d6720 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1314,7 +1314,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1327,7 +1327,9 @@ def traverse_CommandLineTool(
                 replace_step_clt_expr_with_etool(
                     expression, etool_id, parent, inp, step, replace_etool, self_id
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = (
+                    f"$(inputs.{inp_id})"
+                )
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
@@ -1336,7 +1338,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    for out_index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1349,7 +1351,9 @@ def traverse_CommandLineTool(
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[out_index].outputBinding.glob = (
+                        f"$(inputs.{inp_id})"
+                    )
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 77e67be..0e7795b 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1316,7 +1316,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1329,7 +1329,9 @@ def traverse_CommandLineTool(
                 replace_step_clt_expr_with_etool(
                     expression, etool_id, parent, inp, step, replace_etool, self_id
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = (
+                    f"$(inputs.{inp_id})"
+                )
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
@@ -1338,7 +1340,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    for out_index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1351,7 +1353,9 @@ def traverse_CommandLineTool(
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[out_index].outputBinding.glob = (
+                        f"$(inputs.{inp_id})"
+                    )
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index abb46a5..b10101c 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1425,7 +1425,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1438,7 +1438,9 @@ def traverse_CommandLineTool(
                 replace_step_clt_expr_with_etool(
                     expression, etool_id, parent, inp, step, replace_etool, self_id
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = (
+                    f"$(inputs.{inp_id})"
+                )
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
@@ -1447,7 +1449,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    for out_index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1460,7 +1462,9 @@ def traverse_CommandLineTool(
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[out_index].outputBinding.glob = (
+                        f"$(inputs.{inp_id})"
+                    )
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-- 
2.43.0


From 6d0c976dd018abbfd3883238ded53e545b3111be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 28/52] fix: expand type: stderr when refactoring a tool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 16 +++++++++-------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 16 +++++++++-------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 16 +++++++++-------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 14d6720..4f3190f 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -37,23 +37,25 @@ _DEFAULT_CWL_VERSION: Final = "v1.0"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
+    """Rewrite "type: stdout" and "type: stderr" to use an explicit filename."""
     if not process.outputs:
         return process
     result = None
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
+        if output.type_ in ("stdout", "stderr"):
             if not result:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
+            stream_path = getattr(process, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
                     json_dumps(save(process)).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                if output.type_ == "stderr":
+                    stream_path += "_stderr"
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
             result.outputs[index].outputBinding = cwl.CommandOutputBinding(
-                glob=stdout_path
+                glob=stream_path
             )
     if result:
         return result
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 0e7795b..e27c715 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -37,23 +37,25 @@ _DEFAULT_CWL_VERSION: Final = "v1.1"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
+    """Rewrite "type: stdout" and "type: stderr" to use an explicit filename."""
     if not process.outputs:
         return process
     result = None
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
+        if output.type_ in ("stdout", "stderr"):
             if not result:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
+            stream_path = getattr(process, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
                     json_dumps(save(process)).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                if output.type_ == "stderr":
+                    stream_path += "_stderr"
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
             result.outputs[index].outputBinding = cwl.CommandOutputBinding(
-                glob=stdout_path
+                glob=stream_path
             )
     if result:
         return result
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b10101c..570a5b9 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -36,23 +36,25 @@ _DEFAULT_CWL_VERSION: Final = "v1.2"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
+    """Rewrite "type: stdout" and "type: stderr" to use an explicit filename."""
     if not process.outputs:
         return process
     result = None
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
+        if output.type_ in ("stdout", "stderr"):
             if not result:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
+            stream_path = getattr(process, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
                     json_dumps(save(process)).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                if output.type_ == "stderr":
+                    stream_path += "_stderr"
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
             result.outputs[index].outputBinding = cwl.CommandOutputBinding(
-                glob=stdout_path
+                glob=stream_path
             )
     if result:
         return result
-- 
2.43.0


From 8f8ba170e3d682ca4313ab0f37a4858daf1bd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 29/52] fix: evaluate and embed Dirent expressions as function
 bodies

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 10 +++++++---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 10 +++++++---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 10 +++++++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 4f3190f..ab72726 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -797,7 +797,9 @@ def process_workflow_reqs_and_hints(
                                         expr_result = do_eval(
                                             ex=entry.entry,
                                             jobinput=inputs,
-                                            requirements=[],
+                                            requirements=[
+                                                {"class": "InlineJavascriptRequirement"}
+                                            ],
                                             outdir="",
                                             tmpdir="",
                                             resources={},
@@ -1107,7 +1109,7 @@ def process_level_reqs(
                                         entry.entryname, inputs, None
                                     )
                                     entryname = (
-                                        entry.entryname
+                                        "(function(){" + entryname_expr[2:-1] + "})()"
                                         if entryname_expr
                                         else f'"{entry.entryname}"'  # noqa: B907
                                     )
@@ -1115,7 +1117,9 @@ def process_level_reqs(
                                         "${var result; var entryname = "
                                         + entryname
                                         + "; var entry = "
-                                        + entry.entry[2:-1]
+                                        + "(function(){"
+                                        + expression[2:-1]
+                                        + "})()"
                                         + """;
 if (typeof entry === 'string' || entry instanceof String) {
 result = {"class": "File", "basename": entryname, "contents": entry} ;
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index e27c715..c081f08 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -799,7 +799,9 @@ def process_workflow_reqs_and_hints(
                                         expr_result = do_eval(
                                             ex=entry.entry,
                                             jobinput=inputs,
-                                            requirements=[],
+                                            requirements=[
+                                                {"class": "InlineJavascriptRequirement"}
+                                            ],
                                             outdir="",
                                             tmpdir="",
                                             resources={},
@@ -1109,7 +1111,7 @@ def process_level_reqs(
                                         entry.entryname, inputs, None
                                     )
                                     entryname = (
-                                        entry.entryname
+                                        "(function(){" + entryname_expr[2:-1] + "})()"
                                         if entryname_expr
                                         else f'"{entry.entryname}"'  # noqa: B907
                                     )
@@ -1117,7 +1119,9 @@ def process_level_reqs(
                                         "${var result; var entryname = "
                                         + entryname
                                         + "; var entry = "
-                                        + entry.entry[2:-1]
+                                        + "(function(){"
+                                        + expression[2:-1]
+                                        + "})()"
                                         + """;
 if (typeof entry === 'string' || entry instanceof String) {
 result = {"class": "File", "basename": entryname, "contents": entry} ;
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 570a5b9..0543f2f 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -901,7 +901,9 @@ def process_workflow_reqs_and_hints(
                                         expr_result = do_eval(
                                             ex=entry.entry,
                                             jobinput=inputs,
-                                            requirements=[],
+                                            requirements=[
+                                                {"class": "InlineJavascriptRequirement"}
+                                            ],
                                             outdir="",
                                             tmpdir="",
                                             resources={},
@@ -1218,7 +1220,7 @@ def process_level_reqs(
                                         entry.entryname, inputs, None
                                     )
                                     entryname = (
-                                        entry.entryname
+                                        "(function(){" + entryname_expr[2:-1] + "})()"
                                         if entryname_expr
                                         else f'"{entry.entryname}"'  # noqa: B907
                                     )
@@ -1226,7 +1228,9 @@ def process_level_reqs(
                                         "${var result; var entryname = "
                                         + entryname
                                         + "; var entry = "
-                                        + entry.entry[2:-1]
+                                        + "(function(){"
+                                        + expression[2:-1]
+                                        + "})()"
                                         + """;
 if (typeof entry === 'string' || entry instanceof String) {
 result = {"class": "File", "basename": entryname, "contents": entry} ;
-- 
2.43.0


From 1bc458ad05ec46ad927ba5b889e024eec22a0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 30/52] fix: keep loadContents when replacing ExpressionTools

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py |  1 +
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 10 ++++------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 10 ++++------
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index ab72726..bb58a40 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -178,6 +178,7 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                inputBinding=inp.inputBinding,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index c081f08..9250ec4 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -178,6 +178,9 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=inp.loadContents
+                or getattr(inp.inputBinding, "loadContents", None),
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
@@ -1402,12 +1405,7 @@ def traverse_CommandLineTool(
                         expression, outp, False, self_type, [clt, step, parent]
                     )
                     if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
+                        etool.inputs[0].loadContents = True
                     etool.inputs.extend(
                         cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
                             clt, _DEFAULT_CWL_VERSION
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 0543f2f..c826fb1 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -177,6 +177,9 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=inp.loadContents
+                or getattr(inp.inputBinding, "loadContents", None),
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
@@ -1511,12 +1514,7 @@ def traverse_CommandLineTool(
                         expression, outp, False, self_type, [clt, step, parent]
                     )
                     if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
+                        etool.inputs[0].loadContents = True
                     etool.inputs.extend(
                         cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
                             clt, _DEFAULT_CWL_VERSION
-- 
2.43.0


From e3f8c43a627606328cb7d03c6403a1a0dbc2b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 31/52] fix: combine outputEval with the other expressions of a
 tool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 16 ++++++++++++++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 16 ++++++++++++++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 16 ++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index bb58a40..2d1788a 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -611,6 +611,10 @@ def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) ->
                     "Unimplemented OutputParameter type: %s",
                     type(new_outp),
                 )
+    if isinstance(ctool, cwl.Workflow):
+        for sub_step in ctool.steps:
+            if outp_id in sub_step.out:
+                process_CommandLineTool_output(sub_step.run, outp_id)
 
 
 def process_workflow_inputs_and_outputs(
@@ -1371,6 +1375,8 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    for outp in clt.outputs:
+        if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1417,6 +1423,16 @@ def traverse_CommandLineTool(
                             clt, _DEFAULT_CWL_VERSION
                         )
                     )
+                    for generated_inp in target_clt.inputs:
+                        generated_inp_id = generated_inp.id.split("#")[-1].split("/")[
+                            -1
+                        ]
+                        if generated_inp_id.startswith("_"):
+                            sub_wf_inputs.append(
+                                cwl.InputParameter(
+                                    id=generated_inp_id, type_=generated_inp.type_
+                                )
+                            )
                     orig_step_inputs = copy.deepcopy(step.in_)
                     for orig_step_input in orig_step_inputs:
                         orig_step_input.id = orig_step_input.id.split("/")[-1]
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 9250ec4..b9bce8e 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -611,6 +611,10 @@ def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) ->
                     "Unimplemented OutputParameter type: %s",
                     type(new_outp),
                 )
+    if isinstance(ctool, cwl.Workflow):
+        for sub_step in ctool.steps:
+            if outp_id in sub_step.out:
+                process_CommandLineTool_output(sub_step.run, outp_id)
 
 
 def process_workflow_inputs_and_outputs(
@@ -1375,6 +1379,8 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    for outp in clt.outputs:
+        if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1416,6 +1422,16 @@ def traverse_CommandLineTool(
                             clt, _DEFAULT_CWL_VERSION
                         )
                     )
+                    for generated_inp in target_clt.inputs:
+                        generated_inp_id = generated_inp.id.split("#")[-1].split("/")[
+                            -1
+                        ]
+                        if generated_inp_id.startswith("_"):
+                            sub_wf_inputs.append(
+                                cwl.WorkflowInputParameter(
+                                    id=generated_inp_id, type_=generated_inp.type_
+                                )
+                            )
                     orig_step_inputs = copy.deepcopy(step.in_)
                     for orig_step_input in orig_step_inputs:
                         orig_step_input.id = orig_step_input.id.split("/")[-1]
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index c826fb1..78052ed 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -660,6 +660,10 @@ def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) ->
                     "Unimplemented OutputParameter type: %s",
                     type(new_outp),
                 )
+    if isinstance(ctool, cwl.Workflow):
+        for sub_step in ctool.steps:
+            if outp_id in sub_step.out:
+                process_CommandLineTool_output(sub_step.run, outp_id)
 
 
 def process_workflow_inputs_and_outputs(
@@ -1484,6 +1488,8 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    for outp in clt.outputs:
+        if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1525,6 +1531,16 @@ def traverse_CommandLineTool(
                             clt, _DEFAULT_CWL_VERSION
                         )
                     )
+                    for generated_inp in target_clt.inputs:
+                        generated_inp_id = generated_inp.id.split("#")[-1].split("/")[
+                            -1
+                        ]
+                        if generated_inp_id.startswith("_"):
+                            sub_wf_inputs.append(
+                                cwl.WorkflowInputParameter(
+                                    id=generated_inp_id, type_=generated_inp.type_
+                                )
+                            )
                     orig_step_inputs = copy.deepcopy(step.in_)
                     for orig_step_input in orig_step_inputs:
                         orig_step_input.id = orig_step_input.id.split("/")[-1]
-- 
2.43.0


From 474e700fe53dbf8eb9e49b64fb225ce79c5bf689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 32/52] fix: shorten the ids of tools embedded in a workflow

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 14 ++++++++------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 14 ++++++++------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 14 ++++++++------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 2d1788a..6f86bb5 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -589,7 +589,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1332,7 +1332,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1355,7 +1355,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.InputParameter(id=None, type_=glob_target_type)
@@ -1393,7 +1395,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1488,9 +1490,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index b9bce8e..9eb0165 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -589,7 +589,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1336,7 +1336,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1359,7 +1359,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
@@ -1397,7 +1399,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1487,9 +1489,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 78052ed..d17d80f 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -638,7 +638,7 @@ PICKVALUE_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1445,7 +1445,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1468,7 +1468,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
@@ -1506,7 +1508,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1596,9 +1598,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
-- 
2.43.0


From 21ebce6e846cf3b76b666f625c3197fc5c6cca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 33/52] fix: leave rewritten requirements off generated
 ExpressionTools

---
 src/cwl_utils/expression_refactor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index f4f4353..778176c 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -35,9 +35,11 @@ from cwl_utils.parser import (
     Workflow,
     CommandOutputParameter,
     ExpressionTool,
+    EnvVarRequirement,
     InitialWorkDirRequirement,
     InlineJavascriptRequirement,
     ProcessRequirement,
+    ResourceRequirement,
     CommandLineTool,
     load_document_by_uri,
     CommandLineBinding,
@@ -274,7 +276,14 @@ def generate_etool_from_expr2(
             requirements = [
                 x
                 for x in process.requirements
-                if not isinstance(x, InitialWorkDirRequirement)
+                if not isinstance(
+                    x,
+                    (
+                        EnvVarRequirement,
+                        InitialWorkDirRequirement,
+                        ResourceRequirement,
+                    ),
+                )
             ]
     cwlVersion = (
         process.cwlVersion if process and process.cwlVersion is not None else cwlVersion
-- 
2.43.0


From d604293dc63478115b205fe6ae0d2883df740ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 34/52] fix: do not take local one-line files for github
 symbolic links

---
 src/cwl_utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 4cada5e..4236576 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -42,7 +42,7 @@ def _is_github_symbolic_link(base_url: urllib.parse.ParseResult, contents: str)
 
     https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
     """
-    if base_url.scheme in ("file://", ""):
+    if base_url.scheme in ("file", ""):
         return False
 
     idx = contents.find("\n")
@@ -190,7 +190,7 @@ def resolved_path(
 
     elif link_url.scheme == "":
         # Relative path, can be local or remote
-        if base_url.scheme in ("file://", ""):
+        if base_url.scheme in ("file", ""):
             # Local relative path
             if link == "":
                 return base_url
-- 
2.43.0


From ab3f67d71129e1501cf6521fa995cfe322f8796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 35/52] fix: describe enum and array types of a
 SchemaDefRequirement

---
 src/cwl_utils/inputs_schema_gen.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 1dae313..79d1a0a 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -270,6 +270,18 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
     :param schema:
     :return:
     """
+    # Enumerations and arrays have no fields to describe
+    if not isinstance(schema, InputRecordSchemaTypes):
+        name = getattr(schema, "name", None)
+        if name is None:
+            return {}
+        prop = JSONSchemaProperty(
+            name=str(name),
+            type_=schema,
+            description=getattr(schema, "doc", None) or "",
+        )
+        return {to_pascal_case(get_value_from_uri(str(name))): prop.type_dict}
+
     # Sanitise each field of the schema
     sanitised_fields = {}
 
-- 
2.43.0


From 8f25227b1ab6b20df2a9e0ba34450327e483d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 36/52] fix: join the lines of a doc list in the JSON schema

---
 src/cwl_utils/inputs_schema_gen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 79d1a0a..e85273c 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -107,8 +107,11 @@ class JSONSchemaProperty:
         else:
             type_dict = self.generate_type_dict_from_type(self.type_)
 
-        # Add in the description to the type dict
-        type_dict.update({"description": self.description})
+        # Add in the description to the type dict, doc may be a list of lines
+        description = self.description
+        if isinstance(description, list):
+            description = "\n".join(description)
+        type_dict.update({"description": description})
 
         return type_dict
 
-- 
2.43.0


From 4b9c5bc1a019c492e4341e4f3ebb23fd61c78712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 37/52] fix: find the tool input that a step input is linked to

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 58d404b..dfdc7a7 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -269,7 +269,7 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if shortname(cast(str, step_input.id)) == shortname(in_.id):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index bc0c96e..4493a94 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -351,7 +351,7 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if shortname(cast(str, step_input.id)) == shortname(in_.id):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 323910e..88ef0c5 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -379,7 +379,7 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if shortname(cast(str, step_input.id)) == shortname(in_.id):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
-- 
2.43.0


From e7f6747e93fbaf4ea6406a6f99cb8df5237bb6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 38/52] fix: compare enum types by their symbols

---
 src/cwl_utils/parser/utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 89da25d..efa8830 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -8,7 +8,7 @@ from typing import Any, cast, Literal
 from urllib.parse import unquote_plus, urlparse
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import file_uri, shortname, save
 from schema_salad.sourceline import SourceLine, strip_dup_lineno
 from schema_salad.utils import json_dumps, yaml_no_ts
@@ -76,6 +76,19 @@ def _compare_records(
     return True
 
 
+def _compare_enums(src: EnumSchema, sink: EnumSchema, strict: bool = False) -> bool:
+    """
+    Compare the symbols of two enums, whose names are relative to their parameter.
+
+    In strict comparison, the sink has to accept every symbol of the source.
+    """
+    srcsymbols = {shortname(symbol) for symbol in src.symbols}
+    sinksymbols = {shortname(symbol) for symbol in sink.symbols}
+    if strict:
+        return srcsymbols <= sinksymbols
+    return bool(srcsymbols & sinksymbols)
+
+
 def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     """
     Check for identical type specifications, ignoring extra keys like inputBinding.
@@ -93,6 +106,8 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        return _compare_enums(src, sink, strict)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-- 
2.43.0


From 56e27448c8ab3092aac8b7808529a98ba7526c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 39/52] fix: keep the scattered type next to the plain one in a
 source list

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 9 ++++-----
 src/cwl_utils/parser/cwl_v1_1_utils.py | 9 ++++-----
 src/cwl_utils/parser/cwl_v1_2_utils.py | 9 ++++-----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index dfdc7a7..6c0822a 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -332,11 +332,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -347,7 +345,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 4493a94..2fb4f12 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -414,11 +414,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -429,7 +427,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 88ef0c5..de73c62 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -447,11 +447,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -462,7 +460,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
-- 
2.43.0


From 7f22bfc475e953dd856197fc017ba802556d9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 40/52] fix: count the array of a looped step once, however
 often it is used

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index de73c62..68ebfcd 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -182,11 +182,6 @@ def check_all_types(
                                 )
                             )
                         type_dict[src_dict[parm_id].id] = src_typ
-                    if _is_all_output_method_loop_step(param_to_step, parm_id):
-                        src_typ = type_dict[src_dict[parm_id].id]
-                        type_dict[src_dict[parm_id].id] = ArraySchema(
-                            items=src_typ, type_="array"
-                        )
             else:
                 if isinstance(sourceField, MutableSequence):
                     parm_id = cast(str, sourceField[0])
@@ -225,11 +220,6 @@ def check_all_types(
                             )
                         )
                     type_dict[src_dict[parm_id].id] = src_typ
-                if _is_all_output_method_loop_step(param_to_step, parm_id):
-                    src_typ = type_dict[src_dict[parm_id].id]
-                    type_dict[src_dict[parm_id].id] = ArraySchema(
-                        items=src_typ, type_="array"
-                    )
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
@@ -407,6 +397,8 @@ def type_for_step_output(
                             output_type = ArraySchema(items=output_type, type_="array")
                     else:
                         output_type = ArraySchema(items=output_type, type_="array")
+                if _is_all_output_method_loop_step({sourcename: step}, sourcename):
+                    output_type = ArraySchema(items=output_type, type_="array")
                 return output_type
     raise ValidationException(
         "param {} not found in {}.".format(
-- 
2.43.0


From 4172087376a6305b45e8ec18699d68afce580286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 41/52] fix: resolve links inside an imported step process
 relative to its file

---
 src/cwl_utils/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index b358b6d..0f42b97 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -96,6 +96,9 @@ def listify_everything(cwl: dict[str, Any]) -> dict[str, Any]:
             v["in"] = utils.normalize_to_list(
                 v.get("in", []), key_field="id", value_field="source"
             )
+            # keep track of the file that contains the process, for its own links
+            if isinstance(v.get("run"), dict) and list(v["run"]) == ["$import"]:
+                v["run"] = v["run"]["$import"]
 
     return cwl
 
-- 
2.43.0


From 132ea35143dad5c78fc979db343f402ce34d422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 42/52] fix: rewrite type names in unions when splitting a
 graph

---
 src/cwl_utils/graph_split.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 265fd85..3e62f93 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -221,6 +221,15 @@ def rewrite_import(document: MutableMapping[str, Any]) -> None:
     document["$import"] = external_file
 
 
+def rewrite_type_name(name: str, entry_file: str, sameself: bool) -> str:
+    """Clean up the name of one type."""
+    if name.startswith(entry_file):
+        if sameself:
+            return name[len(entry_file) + 1 :]
+        return "{d[0]}#{d[1]}".format(d=name[1:].split("/", 1))
+    return name
+
+
 def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
     """Clean up the names of the types."""
     if isinstance(field, list) and not isinstance(field, str):
@@ -231,13 +240,17 @@ def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
         for key, value in field.items():
             for name in ("type", "items"):
                 if key == name:
-                    if isinstance(value, str) and value.startswith(entry_file):
-                        if sameself:
-                            field[key] = value[len(entry_file) + 1 :]
-                        else:
-                            field[key] = "{d[0]}#{d[1]}".format(
-                                d=value[1:].split("/", 1)
+                    if isinstance(value, str):
+                        field[key] = rewrite_type_name(value, entry_file, sameself)
+                    elif isinstance(value, list):
+                        value[:] = [
+                            (
+                                rewrite_type_name(entry, entry_file, sameself)
+                                if isinstance(entry, str)
+                                else entry
                             )
+                            for entry in value
+                        ]
             if isinstance(value, dict):
                 rewrite_types(value, entry_file, sameself)
             if isinstance(value, list) and not isinstance(value, str):
-- 
2.43.0


From 0e15ceda41a7f96183d635f95a05fe1bca0e3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 43/52] fix: write all kinds and numbers of user types of a
 split graph

---
 src/cwl_utils/graph_split.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 3e62f93..bd47d01 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -266,17 +266,19 @@ def rewrite_schemadef(
         if "$import" in entry:
             rewrite_import(entry)
         elif "name" in entry and "/" in entry["name"]:
+            prefix = entry["name"] + "/"
             entry_file, entry["name"] = entry["name"].lstrip("#").split("/")
             for field in entry.get("fields", []):
                 field["name"] = field["name"].split("/")[2]
-                rewrite_types(field, entry_file, True)
+            if "symbols" in entry:
+                entry["symbols"] = [s.removeprefix(prefix) for s in entry["symbols"]]
+            rewrite_types(entry, entry_file, True)
+            rewrite_types(entry, f"#{entry_file}", True)
+            # a list, so that the types of one file can follow each other
             with (output_dir / entry_file).open("a", encoding="utf-8") as entry_handle:
-                yaml_dump(entry, entry_handle, pretty)
+                yaml_dump([entry], entry_handle, pretty)
+            entry.clear()
             entry["$import"] = entry_file
-            del entry["name"]
-            del entry["type"]
-            if "fields" in entry:
-                del entry["fields"]
     seen_imports = set()
 
     def seen_import(entry: MutableMapping[str, Any]) -> bool:
-- 
2.43.0


From 7637698678e8c06f4f8d00a999962f2f49167ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 44/52] fix: split graphs with types nested in the items of an
 array

---
 src/cwl_utils/graph_split.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index bd47d01..0381296 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -201,11 +201,18 @@ def rewrite(
                         elif isinstance(value, list):
                             new_sources = []
                             for entry in value:
-                                if entry.startswith("#" + doc_id):
+                                if not isinstance(entry, str):
+                                    imports.update(
+                                        rewrite(entry, doc_id, output_dir, pretty)
+                                    )
+                                    new_sources.append(entry)
+                                elif entry.startswith("#" + doc_id):
                                     new_sources.append(entry[len(doc_id) + 2 :])
                                 else:
                                     new_sources.append(entry)
                             document[key] = new_sources
+                        elif isinstance(value, dict):
+                            imports.update(rewrite(value, doc_id, output_dir, pretty))
                     case "$import":
                         rewrite_import(document)
                     case "class" if value == "SchemaDefRequirement":
-- 
2.43.0


From fb477d78fd2cae52a5a6894abe87857f8065b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:55 +0000
Subject: [PATCH 45/52] fix: keep the namespaces of a packed document when
 splitting it

---
 src/cwl_utils/graph_split.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 0381296..1e9a510 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -135,6 +135,8 @@ def graph_split(
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
         entry["cwlVersion"] = version
+        if "$namespaces" in source:
+            entry["$namespaces"] = source["$namespaces"]
         imports = rewrite(entry, entry_id, output_dir, pretty)
         if imports:
             for import_name in imports:
-- 
2.43.0


From 6176816a84ded77b8ba9ad49a73d5d6756cc6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 46/52] fix: keep lists nested in lists of default values

A list inside a list was always spliced into the outer one, so that the
default [[1, 2], [3]] was loaded as [1, 2, 3].
---
 src/cwl_utils/parser/cwl_v1_0.py | 9 +++++++++
 src/cwl_utils/parser/cwl_v1_1.py | 9 +++++++++
 src/cwl_utils/parser/cwl_v1_2.py | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index b59294b..6dff55f 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -111,6 +111,15 @@ class _ArrayLoader(Loader):
                     doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
                 )
                 flatten = loadingOptions.container != "@list"
+                if flatten and isinstance(doc[i], MutableSequence):
+                    # a list within the list stays one if an item can be a list
+                    try:
+                        lf = _load_field(
+                            doc[i], self.items, baseuri, loadingOptions, lc=lc
+                        )
+                        flatten = False
+                    except ValidationException:
+                        pass
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 0057de1..2f44977 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -111,6 +111,15 @@ class _ArrayLoader(Loader):
                     doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
                 )
                 flatten = loadingOptions.container != "@list"
+                if flatten and isinstance(doc[i], MutableSequence):
+                    # a list within the list stays one if an item can be a list
+                    try:
+                        lf = _load_field(
+                            doc[i], self.items, baseuri, loadingOptions, lc=lc
+                        )
+                        flatten = False
+                    except ValidationException:
+                        pass
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index b8fc528..de27d0c 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -111,6 +111,15 @@ class _ArrayLoader(Loader):
                     doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
                 )
                 flatten = loadingOptions.container != "@list"
+                if flatten and isinstance(doc[i], MutableSequence):
+                    # a list within the list stays one if an item can be a list
+                    try:
+                        lf = _load_field(
+                            doc[i], self.items, baseuri, loadingOptions, lc=lc
+                        )
+                        flatten = False
+                    except ValidationException:
+                        pass
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
-- 
2.43.0


From 6577f555840928d0e541796e7913c05e3b41f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 47/52] fix: do not take equal ids in default values for
 duplicate fields

Lists of plain values with an id key, as in the default of a parameter, were
refused; only the identifiers of loaded objects have to be unique.
---
 src/cwl_utils/parser/cwl_v1_0.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 6dff55f..03c606f 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -125,7 +125,7 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                if isinstance(doc[i], CommentedMap) and isinstance(lf, Saveable):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 2f44977..a100f97 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -125,7 +125,7 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                if isinstance(doc[i], CommentedMap) and isinstance(lf, Saveable):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index de27d0c..0a4d2a4 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -125,7 +125,7 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                if isinstance(doc[i], CommentedMap) and isinstance(lf, Saveable):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
-- 
2.43.0


From 9db21638b1135be489b389d55d650e72607caacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 48/52] fix: keep $namespaces and $schemas of the document for
 an entry picked from $graph

---
 src/cwl_utils/parser/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 8626d61..e3fecdf 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -387,8 +387,12 @@ def load_document_by_yaml(
     """Load a CWL object from a YAML object."""
     version = cwl_version(yaml)
     if "$graph" in yaml and not load_all:
+        graph = yaml
         yaml = _get_id_from_graph(yaml, id_)
         yaml["cwlVersion"] = version
+        for directive in ("$namespaces", "$schemas"):
+            if directive in graph:
+                yaml.setdefault(directive, graph[directive])
     match version:
         case "v1.0":
             result = cwl_v1_0.load_document_by_yaml(yaml, uri, loadingOptions)
-- 
2.43.0


From f81848cbd7b579baa673ba49dffd8adbf39bff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 49/52] fix: save $namespaces and $schemas of $graph entries at
 the document root

---
 src/cwl_utils/parser/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e3fecdf..4241d36 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -439,7 +439,14 @@ def save(
                 latest = max(
                     (v for v in vers if v is not None), key=cast(Any, version_split)
                 )
-                return {"cwlVersion": latest, "$graph": lst}
+                graph: dict[str, Any] = {"cwlVersion": latest, "$graph": lst}
+                for entry in lst:  # these belong to the document, not its entries
+                    if namespaces := entry.pop("$namespaces", None):
+                        graph.setdefault("$namespaces", {}).update(namespaces)
+                    for schema in entry.pop("$schemas", []):
+                        if schema not in graph.setdefault("$schemas", []):
+                            graph["$schemas"].append(schema)
+                return graph
             return lst
         case MutableMapping():
             newdict = {}
-- 
2.43.0


From fff62037cc8699b5a235255840ee4dbc199702ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 50/52] fix: pack moves $namespaces and $schemas of linked
 processes to the document root

---
 src/cwl_utils/pack.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 0f42b97..adf1d41 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -225,6 +225,7 @@ def resolve_steps(
                     new_base_url,
                     cwl.get("cwlVersion", cwl_version),
                 )
+                hoist_directives(v["run"], cwl, new_base_url)
             else:
                 v["run"] = pack_process(
                     v["run"],
@@ -244,6 +245,20 @@ def resolve_steps(
     return cwl
 
 
+def hoist_directives(
+    process: dict[str, Any], parent: dict[str, Any], base_url: urllib.parse.ParseResult
+) -> None:
+    """Move $namespaces and $schemas to the parent, they belong to the document root."""
+    known = parent.get("$namespaces", {})
+    namespaces = process.get("$namespaces", {})
+    if namespaces and all(known.get(p, uri) == uri for p, uri in namespaces.items()):
+        parent["$namespaces"] = known | process.pop("$namespaces")
+    for schema in process.pop("$schemas", []):
+        url = utils.resolved_path(base_url, schema).geturl()
+        if url not in parent.setdefault("$schemas", []):
+            parent["$schemas"].append(url)
+
+
 def add_missing_requirements(cwl: dict[str, Any]) -> dict[str, Any]:
     """Due to packing, we may need to add a "SubworkflowFeatureRequirement"."""
     requirements = cwl.get("requirements", [])
-- 
2.43.0


From cec624f00bf750512af410198eb6a568124b6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 51/52] fix: report an unknown source in a list of sources
 instead of a KeyError

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 6c0822a..99f5dea 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -134,6 +134,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 2fb4f12..bd78015 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -200,6 +200,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 68ebfcd..0f416fd 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -161,6 +161,10 @@ def check_all_types(
                     linkMerge = None
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
-- 
2.43.0


From a117fbaca89052929c9bc2346de2b02b15cea2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:04 +0000
Subject: [PATCH 52/52] fix: steps with a requirement of their own keep it
 instead of getting the workflow's as well

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 15 ++++++---------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 15 ++++++---------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 15 ++++++---------
 3 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 6f86bb5..c5d8aab 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -887,9 +887,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
+                if any(isinstance(req, cwl.EnvVarRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(envVarReq)
@@ -906,9 +905,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
+                if any(isinstance(req, cwl.ResourceRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(resourceReq)
@@ -925,9 +923,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
+                if any(isinstance(req, cwl.InitialWorkDirRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(iwdr)
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 9eb0165..0bffe86 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -891,9 +891,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
+                if any(isinstance(req, cwl.EnvVarRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(envVarReq)
@@ -910,9 +909,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
+                if any(isinstance(req, cwl.ResourceRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(resourceReq)
@@ -929,9 +927,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
+                if any(isinstance(req, cwl.InitialWorkDirRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(iwdr)
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d17d80f..450c262 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1000,9 +1000,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
+                if any(isinstance(req, cwl.EnvVarRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(envVarReq)
@@ -1019,9 +1018,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
+                if any(isinstance(req, cwl.ResourceRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(resourceReq)
@@ -1038,9 +1036,8 @@ def process_workflow_reqs_and_hints(
             if step.id.split("#")[-1].startswith("_expression_"):
                 continue
             if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
+                if any(isinstance(req, cwl.InitialWorkDirRequirement) for req in step.requirements):
+                    continue
             else:
                 step.requirements = yaml.comments.CommentedSeq()
             step.requirements.append(iwdr)
-- 
2.43.0

