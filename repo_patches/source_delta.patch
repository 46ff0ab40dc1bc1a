From 7423cc210979e1db4ebd5ef561b632d6d68bfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 01/67] fix: keep the attributes of outlined style tags instead
 of crashing on them

---
 vanillaplusjs/build/html/manips/outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..40e4fbe 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -109,7 +109,7 @@ class OutlineManipulator(HTMLManipulator):
                     os.path.join(self.context.folder, self.outlining_to_path), "w"
                 )
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
-- 
2.43.0


From c7dfbdd036cb4bb098a08718f939ed5bc547ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 02/67] fix: rescan everything that depends on a modified file
 in a rebuild

---
 .../build/hot_incremental_rebuild.py          | 51 +++++++++----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..ddbd472 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -125,7 +125,26 @@ async def hot_incremental_rebuild(
         return
 
     with concurrent.futures.ProcessPoolExecutor() as executor:
-        files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
+        # Everything which depends on a modified file has to be scanned again too,
+        # since what it depends on and produces may have changed along with the
+        # contents of the modified file (e.g., the resolutions of an image).
+        files_to_rebuild: Set[str] = set()
+        stack: List[str] = [*changed_files, *added_files, *deleted_files]
+        while stack:
+            file = stack.pop()
+            if file in files_to_rebuild:
+                continue
+            files_to_rebuild.add(file)
+
+            if file in old_dependency_graph:
+                stack.extend(old_dependency_graph.get_parents(file))
+
+            if file in old_placeholders_graph:
+                stack.extend(old_placeholders_graph.get_parents(file))
+
+        files_that_need_scanning = [
+            file for file in files_to_rebuild if file not in deleted_files
+        ]
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
@@ -162,6 +181,10 @@ async def hot_incremental_rebuild(
                         added_files[placeholder_relpath] = get_file_signature(
                             os.path.join(context.folder, placeholder_relpath)
                         )
+                        files_to_rebuild.add(placeholder_relpath)
+                        deleted_files = [
+                            f for f in deleted_files if f != placeholder_relpath
+                        ]
 
         # When the scan file result marks an output file as a dependency,
         # we must reinterpret that as a dependency on a file which intends
@@ -206,34 +229,10 @@ async def hot_incremental_rebuild(
             new_dependencies.discard(scanned_file_relpath)
             scan_result.dependencies = list(new_dependencies)
 
-        files_to_rebuild: Set[str] = set()
         dirtied_outputs: Set[str] = set()
         dirtied_artifacts: Set[str] = set()
-        stack: List[str] = []
-
-        for file in updated_children.keys():
-            files_to_rebuild.add(file)
-            stack.append(file)
-
-        for file in deleted_files:
-            files_to_rebuild.add(file)
-            stack.append(file)
-
-        while stack:
-            file = stack.pop()
-
-            if file in old_dependency_graph:
-                for par in old_dependency_graph.get_parents(file):
-                    if par not in files_to_rebuild:
-                        files_to_rebuild.add(par)
-                        stack.append(par)
-
-            if file in old_placeholders_graph:
-                for par in old_placeholders_graph.get_parents(file):
-                    if par not in files_to_rebuild:
-                        files_to_rebuild.add(par)
-                        stack.append(par)
 
+        for file in files_to_rebuild:
             if file in old_output_graph:
                 for child in old_output_graph.get_children(file):
                     if child.startswith("artifacts"):
-- 
2.43.0


From edf83b42f6141ecffeda5e9fa52c16c5d9a8e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 03/67] fix: do not resolve a dependency to a file that stopped
 producing it

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index ddbd472..d3edb38 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -217,7 +217,7 @@ async def hot_incremental_rebuild(
                     produced_by = old_output_graph.get_parents(dep_relpath)
                     # take the first one which hasn't been deleted
                     for p in produced_by:
-                        if p not in deleted_files:
+                        if p not in deleted_files and p not in updated_children:
                             out_dependencies_mapping[dep_relpath] = p
                             new_dependencies.add(p)
                             break
-- 
2.43.0


From 6dc8b7dd6b53fd760a77dd94e97ff963dfebdedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 04/67] fix: keep outputs which are also produced by files that
 are not rebuilt

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index d3edb38..b41474b 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -235,6 +235,13 @@ async def hot_incremental_rebuild(
         for file in files_to_rebuild:
             if file in old_output_graph:
                 for child in old_output_graph.get_children(file):
+                    if any(
+                        par not in files_to_rebuild
+                        for par in old_output_graph.get_parents(child)
+                    ):
+                        # still exactly what a file we won't rebuild produced
+                        continue
+
                     if child.startswith("artifacts"):
                         dirtied_artifacts.add(child)
                     else:
-- 
2.43.0


From 9c823b64bd447a89b141a3db7fca48b2dd9532cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 05/67] fix: never build the same output in two files at once

---
 .../build/hot_incremental_rebuild.py          | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index b41474b..e7eade8 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -276,9 +276,9 @@ async def hot_incremental_rebuild(
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
-        pending_dirty_outputs = set()
         still_dirty_artifacts = set(dirtied_artifacts)
-        pending_artifacts = set()
+        pending_outputs: Set[str] = set()
+        finished_outputs: Set[str] = set()
 
         def get_file_depends_on(file: str) -> List[str]:
             if file in updated_children:
@@ -331,23 +331,22 @@ async def hot_incremental_rebuild(
 
                 all_outputs_not_pending = True
                 for output in file_creates:
-                    if output in pending_dirty_outputs or output in pending_artifacts:
+                    if output in pending_outputs:
                         all_outputs_not_pending = False
                         logger.debug(
-                            "Cannot rebuild {} while we are cleaning {}",
+                            "Cannot rebuild {} while we are producing {}",
                             file,
                             output,
                         )
+                        break
 
                 if not all_outputs_not_pending:
                     continue
 
                 rebuildable_files.append(file)
                 for output in file_creates:
-                    if output in still_dirty_outputs:
-                        pending_dirty_outputs.add(output)
-                    elif output in dirtied_artifacts:
-                        pending_artifacts.add(output)
+                    if output not in finished_outputs:
+                        pending_outputs.add(output)
 
             if not rebuildable_files and not pending_results:
                 logger.error("No files to rebuild")
@@ -420,18 +419,17 @@ async def hot_incremental_rebuild(
 
                     updated_results[pending_file] = rebuild_result
                     del pending_results[pending_file]
+                    finished_outputs.update(get_file_creates(pending_file))
+                    pending_outputs.difference_update(get_file_creates(pending_file))
                     for file in rebuild_result.produced:
                         if file in still_dirty_outputs:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Updated {} using {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Produced {} from {}", file, pending_file)
                     for file in rebuild_result.reused:
@@ -441,7 +439,6 @@ async def hot_incremental_rebuild(
                                 file,
                             )
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug(
                                 "Determined {} is not dirty using {}",
@@ -449,10 +446,8 @@ async def hot_incremental_rebuild(
                                 pending_file,
                             )
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Reused {} in {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Reused {} for {}", file, pending_file)
 
-- 
2.43.0


From 1619b284fa46340d17af97c3878fda68dfe5dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 06/67] fix: rebuild what imports a generated images file
 whenever its json changes

The generated file was only tied to the json file that produces it in the very
build that wrote the placeholder, and only when building from the project folder.
---
 vanillaplusjs/build/handlers/image_glue.py    |  4 +--
 .../build/hot_incremental_rebuild.py          | 28 +++++++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..a2a0cb0 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -148,8 +148,8 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     placeholder_path = os.path.join(
         "src", "public", path_rel_to_public_no_ext + ".images.js"
     )
-    if context.auto_generate_images_js_placeholders and not os.path.exists(
-        placeholder_path
+    if context.auto_generate_images_js_placeholders or os.path.exists(
+        os.path.join(context.folder, placeholder_path)
     ):
         placeholders[placeholder_path] = PLACEHOLDER_FILE
 
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index e7eade8..49e7680 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -141,6 +141,7 @@ async def hot_incremental_rebuild(
 
             if file in old_placeholders_graph:
                 stack.extend(old_placeholders_graph.get_parents(file))
+                stack.extend(old_placeholders_graph.get_children(file))
 
         files_that_need_scanning = [
             file for file in files_to_rebuild if file not in deleted_files
@@ -165,17 +166,22 @@ async def hot_incremental_rebuild(
                         if os.path.exists(
                             os.path.join(context.folder, placeholder_relpath)
                         ):
-                            continue
-
-                        logger.info(
-                            "{} generated a placeholder file {}",
-                            scanned_file_relpath,
-                            placeholder_relpath,
-                        )
-                        with open(
-                            os.path.join(context.folder, placeholder_relpath), "w"
-                        ) as f:
-                            f.write(placeholder_contents)
+                            new_placeholders[placeholder_relpath] = scanned_file_relpath
+                            if (
+                                placeholder_relpath in old_dependency_graph
+                                or placeholder_relpath in added_files
+                            ) and placeholder_relpath not in deleted_files:
+                                continue
+                        else:
+                            logger.info(
+                                "{} generated a placeholder file {}",
+                                scanned_file_relpath,
+                                placeholder_relpath,
+                            )
+                            with open(
+                                os.path.join(context.folder, placeholder_relpath), "w"
+                            ) as f:
+                                f.write(placeholder_contents)
                         files_that_need_scanning.append(placeholder_relpath)
                         new_placeholders[placeholder_relpath] = scanned_file_relpath
                         added_files[placeholder_relpath] = get_file_signature(
-- 
2.43.0


From 109596e4d733f71f74552542323df22451972a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 07/67] fix: recover from builds which failed or were killed
 part way

Outputs that such a build left behind were taken for up to date by the next one,
and half-written dependency graphs made every later build fail.
---
 vanillaplusjs/build/build_context.py          |  7 ++
 .../build/hot_incremental_rebuild.py          | 71 +++++++++++++++----
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index b4c7852..281ec95 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -211,6 +211,13 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "placeholder_graph.json")
 
+    @property
+    def unfinished_build_file(self) -> str:
+        """Returns the path to the file which exists from when a build starts to
+        modify the outputs until it has succeeded.
+        """
+        return os.path.join(self.out_folder, "unfinished_build.txt")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 49e7680..1bd8e1e 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -14,6 +14,7 @@ from loguru import logger
 import concurrent.futures
 import os
 import asyncio
+import shutil
 import itertools
 
 
@@ -87,6 +88,36 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    deleted_files = list(deleted_files)
+
+    if os.path.exists(context.unfinished_build_file):
+        # The last build failed or was killed after it started to modify the
+        # outputs, so we cannot trust any of them.
+        logger.info("The last build did not finish, rebuilding everything")
+        for file in itertools.chain(
+            old_dependency_graph.nodes.keys(), old_output_graph.nodes.keys()
+        ):
+            if file.startswith(("out" + os.path.sep, "artifacts" + os.path.sep)):
+                continue
+            if file in changed_files or file in added_files or file in deleted_files:
+                continue
+            if os.path.lexists(os.path.join(context.folder, file)):
+                changed_files[file] = get_file_signature(
+                    os.path.join(context.folder, file)
+                )
+            else:
+                deleted_files.append(file)
+
+        public_out_folder = os.path.join(context.out_folder, "www")
+        if os.path.isdir(public_out_folder):
+            for name in os.listdir(public_out_folder):
+                path = os.path.join(public_out_folder, name)
+                if os.path.isdir(path) and not os.path.islink(path):
+                    shutil.rmtree(path)
+                else:
+                    os.unlink(path)
+
+    new_constants_mode: Optional[Literal["dev", "prod"]] = None
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
         current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
         old_constants_mode = None
@@ -99,6 +130,7 @@ async def hot_incremental_rebuild(
             pass
 
         if old_constants_mode != current_mode:
+            new_constants_mode = current_mode
             if (context.js_constants.relpath not in changed_files) and (
                 context.js_constants.relpath not in added_files
             ):
@@ -108,12 +140,6 @@ async def hot_incremental_rebuild(
                 changed_files[context.js_constants.relpath] = get_file_signature(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
-
-            makedirs_safely(context.out_folder)
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as f:
-                f.write(current_mode)
     else:
         try:
             os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
@@ -262,6 +288,10 @@ async def hot_incremental_rebuild(
         logger.debug("{} files to clean", len(dirtied_outputs))
         logger.debug("{} files to possibly clean", len(dirtied_artifacts))
 
+        makedirs_safely(context.out_folder)
+        with open(context.unfinished_build_file, "w") as f:
+            pass
+
         possibly_empty_folders = set()
         for file in itertools.chain(dirtied_outputs, dirtied_artifacts):
             folder = os.path.dirname(file)
@@ -461,10 +491,15 @@ async def hot_incremental_rebuild(
 
         for file in still_dirty_artifacts:
             logger.debug("Cleaning {}", file)
-            os.unlink(os.path.join(context.folder, file))
+            try:
+                os.unlink(os.path.join(context.folder, file))
+            except FileNotFoundError:
+                pass
 
         for folder_relpath in sorted(possibly_empty_folders, key=lambda s: -len(s)):
             folder = os.path.join(context.folder, folder_relpath)
+            if not os.path.isdir(folder):
+                continue
             scandir_iter = os.scandir(folder)
             has_any_contents = next(scandir_iter, None) is not None
             scandir_iter.close()
@@ -605,14 +640,22 @@ async def hot_incremental_rebuild(
 
         makedirs_safely(context.out_folder)
 
-        with open(context.dependency_graph_file, "w") as fp:
-            new_dependency_graph.store(fp)
+        for graph, graph_file in (
+            (new_dependency_graph, context.dependency_graph_file),
+            (new_output_graph, context.output_graph_file),
+            (new_placeholder_graph, context.placeholder_graph_file),
+        ):
+            with open(graph_file + ".tmp", "w") as fp:
+                graph.store(fp)
+            os.replace(graph_file + ".tmp", graph_file)
 
-        with open(context.output_graph_file, "w") as fp:
-            new_output_graph.store(fp)
+        if new_constants_mode is not None:
+            with open(
+                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
+            ) as f:
+                f.write(new_constants_mode)
 
-        with open(context.placeholder_graph_file, "w") as fp:
-            new_placeholder_graph.store(fp)
+        os.unlink(context.unfinished_build_file)
 
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
-- 
2.43.0


From 4a480c5a402bd1f1e88bc17abf506b0891825b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 08/67] fix: tie image targets to the contents of their source
 image

Targets were looked up using the hash file of a previous build and reserved without
holding the lock since the lookup, and targets which were only reserved matched any
source image; a changed source image crashed the lookup.
---
 .../build/html/manips/images/exporter.py      |  18 +--
 .../build/html/manips/images/metadata.py      | 113 +++++++++++-------
 2 files changed, 79 insertions(+), 52 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index af8e870..166e94f 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -4,6 +4,7 @@ from typing import Dict, List, Literal, Optional, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.file_signature import get_file_signature
+from vanillaplusjs.build.handlers.hash import calculate_hash
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
 from vanillaplusjs.build.html.manips.images.resolutions import yield_sizes
 from vanillaplusjs.build.html.manips.images.settings import (
@@ -26,6 +27,7 @@ from vanillaplusjs.build.html.manips.images.metadata import (
     load_metadata,
     reserve_target_lock_path,
     store_metadata,
+    write_json_atomically,
 )
 import shutil
 from PIL import Image
@@ -163,11 +165,9 @@ def export_command(
     image.close()
     del image
 
-    with open(
-        os.path.join(context.out_folder, "www", path_relative_to_public + ".hash")
-    ) as f:
-        contents_hash = f.read()
-
+    contents_hash = calculate_hash(
+        os.path.join(context.public_folder, path_relative_to_public)
+    )
     settings_hash = hash_image_settings(context.image_settings)
     source = ImageSource(
         path=path_relative_to_root,
@@ -306,13 +306,13 @@ def export_command(
         ),
     )
 
-    with open(
+    write_json_atomically(
+        store_metadata(metadata),
         os.path.join(
             context.folder, target_art_folder_relative_to_root, "metadata.json"
         ),
-        "w",
-    ) as f:
-        json.dump(store_metadata(metadata), f, indent=2)
+        indent=2,
+    )
 
     return metadata, BuildFileResult(
         children=children,
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 11a502e..37ca1c3 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -243,6 +243,18 @@ def get_target(
     Returns:
         (int, None): The ID of the target, or None if it doesn't exist.
     """
+    lock_path = reserve_target_lock_path(context, relpath)
+    makedirs_safely(os.path.dirname(lock_path))
+    with fasteners.InterProcessLock(lock_path):
+        return _get_target(context, relpath, target)
+
+
+def _get_target(
+    context: BuildContext,
+    relpath: str,
+    target: ImageTargetSettings,
+) -> Optional[int]:
+    """get_target for when the lock on the source image is already held"""
     if not os.path.exists(os.path.join(context.public_folder, relpath)):
         return None
 
@@ -251,18 +263,8 @@ def get_target(
     if not os.path.exists(art_path):
         return None
 
-    precomputed_hash_path = os.path.join(context.out_folder, "www", relpath + ".hash")
-    try:
-        with open(precomputed_hash_path, "r") as f:
-            contents_hash = f.read()
-    except FileNotFoundError:
-        logger.debug(
-            "No precomputed hash available for {} (expected at {}), calculating on demand",
-            os.path.join(context.public_folder, relpath),
-            precomputed_hash_path,
-        )
-        contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
-
+    # the hash file in the out folder can still be from the previous contents
+    contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
     settings_hash = hash_image_settings(context.image_settings)
 
     scanner = os.scandir(art_path)
@@ -277,16 +279,15 @@ def get_target(
                 continue
 
             if not os.path.exists(os.path.join(entry.path, "metadata.json")):
-                lock_path = reserve_target_lock_path(context, relpath)
-                makedirs_safely(os.path.dirname(lock_path))
-                with fasteners.InterProcessLock(lock_path):
-                    if os.path.exists(os.path.join(entry.path, "placeholder.json")):
-                        with open(
-                            os.path.join(entry.path, "placeholder.json"), "r"
-                        ) as f:
-                            placeholder = load_image_target_settings(json.load(f))
-                        if placeholder == target:
-                            return int(entry.name)
+                if os.path.exists(os.path.join(entry.path, "placeholder.json")):
+                    with open(os.path.join(entry.path, "placeholder.json"), "r") as f:
+                        placeholder = json.load(f)
+                    if (
+                        placeholder.get("source") == contents_hash
+                        and placeholder.get("settings_hash") == settings_hash
+                        and load_image_target_settings(placeholder) == target
+                    ):
+                        return int(entry.name)
                 continue
 
             with open(os.path.join(entry.path, "metadata.json"), "r") as f:
@@ -306,7 +307,7 @@ def get_target(
                     "{} is not a match for {}; the source hash is {} but should be {}",
                     entry.path,
                     relpath,
-                    entry_metadata["source"]["contents_hash"],
+                    entry_metadata.source.contents_hash,
                     contents_hash,
                 )
                 continue
@@ -340,30 +341,53 @@ def reserve_target(
     """Assigns a new unused id for the given source image, and prevents
     it from being reserved again.
     """
-    relpath_without_ext = os.path.splitext(relpath)[0]
-    art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
     lock_path = reserve_target_lock_path(context, relpath)
     makedirs_safely(os.path.dirname(lock_path))
-    makedirs_safely(art_path)
     with fasteners.InterProcessLock(lock_path):
-        try:
-            with open(os.path.join(art_path, "counter.txt"), "r") as f:
-                counter = int(f.read())
-        except FileNotFoundError:
-            counter = 0
+        return _reserve_target(context, relpath, target)
 
+
+def _reserve_target(
+    context: BuildContext, relpath: str, target: ImageTargetSettings
+) -> int:
+    """reserve_target for when the lock on the source image is already held"""
+    relpath_without_ext = os.path.splitext(relpath)[0]
+    art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
+    makedirs_safely(art_path)
+    try:
+        with open(os.path.join(art_path, "counter.txt"), "r") as f:
+            counter = int(f.read())
+    except (FileNotFoundError, ValueError):
+        counter = 0
+
+    counter = counter + 1
+    while os.path.lexists(os.path.join(art_path, str(counter))):
         counter = counter + 1
 
-        with open(os.path.join(art_path, "counter.txt"), "w") as f:
-            f.write(str(counter))
+    with open(os.path.join(art_path, "counter.txt"), "w") as f:
+        f.write(str(counter))
+
+    entry_path = os.path.join(art_path, str(counter))
+    makedirs_safely(entry_path)
+    write_json_atomically(
+        {
+            **dataclasses.asdict(target),
+            "source": calculate_hash(os.path.join(context.public_folder, relpath)),
+            "settings_hash": hash_image_settings(context.image_settings),
+        },
+        os.path.join(entry_path, "placeholder.json"),
+    )
+
+    return counter
 
-        entry_path = os.path.join(art_path, str(counter))
-        placeholder_path = os.path.join(entry_path, "placeholder.json")
-        makedirs_safely(entry_path)
-        with open(placeholder_path, "w") as f:
-            json.dump(dataclasses.asdict(target), f)
 
-        return counter
+def write_json_atomically(data: dict, path: str, **kwargs) -> None:
+    """Writes the json file at the given path such that nobody, not even after a
+    crash, can see a part of it
+    """
+    with open(path + ".tmp", "w") as f:
+        json.dump(data, f, **kwargs)
+    os.replace(path + ".tmp", path)
 
 
 def get_or_reserve_target(
@@ -374,10 +398,13 @@ def get_or_reserve_target(
     """If the target already exists, returns its ID. Otherwise, reserves
     a new ID for the target.
     """
-    target_id = get_target(context, relpath, target)
-    if target_id is None:
-        target_id = reserve_target(context, relpath, target)
-    return target_id
+    lock_path = reserve_target_lock_path(context, relpath)
+    makedirs_safely(os.path.dirname(lock_path))
+    with fasteners.InterProcessLock(lock_path):
+        target_id = _get_target(context, relpath, target)
+        if target_id is None:
+            target_id = _reserve_target(context, relpath, target)
+        return target_id
 
 
 def hash_image_settings(settings: ImageSettings) -> int:
-- 
2.43.0


From cd4b9099290d5b8a54e91d17df5eaf8d6f94d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 09/67] fix: symlink images by absolute path, a relative one
 dangles

---
 vanillaplusjs/build/html/manips/images/exporter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 166e94f..568add8 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -130,7 +130,9 @@ def export_command(
 
                     if context.symlinks:
                         os.symlink(
-                            os.path.join(context.artifacts_folder, output.relpath),
+                            os.path.abspath(
+                                os.path.join(context.artifacts_folder, output.relpath)
+                            ),
                             os.path.join(context.folder, out_file),
                         )
                     else:
@@ -286,7 +288,7 @@ def export_command(
             )
             if context.symlinks:
                 os.symlink(
-                    desired_path,
+                    os.path.abspath(desired_path),
                     os.path.join(context.folder, out_path_relative_to_root),
                 )
             else:
-- 
2.43.0


From 420c46d6e2f26f8afdd8661ec2ee594d87efd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 10/67] fix: outline scripts and styles through files outside
 of the source folder

The files in the source folder clashed with a source file of the same name, had their
folder removed by pages handled at the same time, and became part of the project when
the build was killed.
---
 vanillaplusjs/build/handlers/css.py        | 16 +++--
 vanillaplusjs/build/handlers/handler.py    | 12 +++-
 vanillaplusjs/build/handlers/js.py         | 16 +++--
 vanillaplusjs/build/html/manips/outline.py | 69 ++++++++++------------
 4 files changed, 62 insertions(+), 51 deletions(-)

diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..032646b 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -3,7 +3,7 @@ stores that in the output directory (as if it were copied), and then
 hashes that output as if via hash.
 """
 
-from typing import List
+from typing import List, Optional
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.css.manips.nest import (
@@ -37,7 +37,9 @@ and `build_result(self) -> BuildFileResult`
 """
 
 
-def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
+def scan_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
@@ -46,7 +48,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=infile or os.path.join(context.folder, relpath),
+        outfile=None,
+        manipulators=manips,
     )
 
     sub_scan_results = [
@@ -62,7 +66,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     return ScanFileResult(dependencies=list(dependencies), produces=list(produces))
 
 
-def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
+def build_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> BuildFileResult:
     if not relpath.endswith(".css"):
         return BuildFileResult([], [], [])
 
@@ -75,7 +81,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=infile or os.path.join(context.folder, relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/handlers/handler.py b/vanillaplusjs/build/handlers/handler.py
index 847809e..e8fcf1c 100644
--- a/vanillaplusjs/build/handlers/handler.py
+++ b/vanillaplusjs/build/handlers/handler.py
@@ -1,3 +1,4 @@
+from typing import Optional
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -7,10 +8,17 @@ class Handler:
     """Describes something which acts as a handler. Typically
     a handler is not actually a subclass of this but rather a module
     with the same functions.
+
+    If infile is specified, the contents are read from there as if they were
+    at relpath.
     """
 
-    def scan_file(self, context: BuildContext, relpath: str) -> ScanFileResult:
+    def scan_file(
+        self, context: BuildContext, relpath: str, infile: Optional[str] = None
+    ) -> ScanFileResult:
         raise NotImplementedError()
 
-    def build_file(self, context: BuildContext, relpath: str) -> BuildFileResult:
+    def build_file(
+        self, context: BuildContext, relpath: str, infile: Optional[str] = None
+    ) -> BuildFileResult:
         raise NotImplementedError()
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..b2608e1 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -3,7 +3,7 @@ stores that in the output directory (as if it were copied), and then
 hashes that output as if via hash.
 """
 
-from typing import List
+from typing import List, Optional
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.js.manips.hash_imports import (
@@ -31,7 +31,9 @@ and `build_result(self) -> BuildFileResult`
 """
 
 
-def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
+def scan_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
@@ -40,7 +42,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=infile or os.path.join(context.folder, relpath),
+        outfile=None,
+        manipulators=manips,
     )
 
     sub_scan_results = [
@@ -56,7 +60,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     return ScanFileResult(dependencies=list(dependencies), produces=list(produces))
 
 
-def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
+def build_file(
+    context: BuildContext, relpath: str, infile: Optional[str] = None
+) -> BuildFileResult:
     if not relpath.endswith(".js"):
         return BuildFileResult([], [], [])
 
@@ -69,7 +75,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=infile or os.path.join(context.folder, relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 40e4fbe..97280e1 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -1,4 +1,3 @@
-import errno
 from typing import Dict, List, Literal, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
@@ -7,6 +6,7 @@ import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.handlers.handler import Handler
 import os
 import io
+import tempfile
 from urllib.parse import urlencode
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -63,7 +63,10 @@ class OutlineManipulator(HTMLManipulator):
 
         self.outlining: Optional[Literal["script", "style"]] = None
         self.outlining_to_path: Optional[str] = None
-        """Relative to project root"""
+        """Where the outlined file would be, relative to project root. The contents
+        go through a file outside of the source folder, since that one may be used
+        by other files and anything left in it would become part of the project.
+        """
         self.outlining_to: Optional[io.TextIOBase] = None
         self.start_tag_attrs: Optional[Dict[str, str]] = None
         """The attributes to preserve on the start tag"""
@@ -78,36 +81,24 @@ class OutlineManipulator(HTMLManipulator):
         if self.outlining is None:
             if self._should_outline_script(node):
                 self.outlining = "script"
-                if self.script_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.script_src_folder)
-                    )
                 self.script_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.script_src_folder,
                     f"{self.script_outline_count}.js",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_file()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
             if self._should_outline_style(node):
                 self.outlining = "style"
-                if self.style_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.style_src_folder)
-                    )
                 self.style_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.style_src_folder,
                     f"{self.style_outline_count}.css",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_file()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
@@ -116,35 +107,29 @@ class OutlineManipulator(HTMLManipulator):
             raise ValueError(f"Unexpected tag {node}")
 
         if node["type"] == "EndTag":
+            infile = self.outlining_to.name
             self.outlining_to.close()
             self.outlining_to = None
 
             handler = (
                 self.js_handler if self.outlining == "script" else self.css_handler
             )
-            if self.mode == "scan":
-                scan_result = handler.scan_file(self.context, self.outlining_to_path)
-                self.dependencies.update(scan_result.dependencies)
-                self.produces.update(scan_result.produces)
-            else:
-                build_result = handler.build_file(self.context, self.outlining_to_path)
-                self.children.update(build_result.children)
-                self.produced.update(build_result.produced)
-                self.reused.update(build_result.reused)
-
-            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
-            possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
-
-            while possibly_empty_folder.count(os.path.sep) > 2:
-                try:
-                    os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))
-                except (FileNotFoundError, PermissionError):
-                    break  # Scanning can happen concurrently
-                except OSError as e:
-                    if e.errno == errno.ENOTEMPTY:
-                        break
-                    raise
-                possibly_empty_folder = os.path.dirname(possibly_empty_folder)
+            try:
+                if self.mode == "scan":
+                    scan_result = handler.scan_file(
+                        self.context, self.outlining_to_path, infile
+                    )
+                    self.dependencies.update(scan_result.dependencies)
+                    self.produces.update(scan_result.produces)
+                else:
+                    build_result = handler.build_file(
+                        self.context, self.outlining_to_path, infile
+                    )
+                    self.children.update(build_result.children)
+                    self.produced.update(build_result.produced)
+                    self.reused.update(build_result.reused)
+            finally:
+                os.remove(infile)
 
             result_tag_attr = "src" if self.outlining == "script" else "href"
 
@@ -203,6 +188,12 @@ class OutlineManipulator(HTMLManipulator):
         self.outlining_to.write(node["data"])
         return None
 
+    def _open_outlining_file(self) -> io.TextIOBase:
+        makedirs_safely(self.context.out_folder)
+        return tempfile.NamedTemporaryFile(
+            "w", dir=self.context.out_folder, suffix=".outline", delete=False
+        )
+
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
             node["type"] == "StartTag"
-- 
2.43.0


From f427971364208feef24b446bb4de045b28392db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 11/67] fix: leave script elements which hold data in the
 document

---
 vanillaplusjs/build/html/manips/outline.py | 28 ++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 97280e1..9d3539a 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -13,6 +13,33 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
+JS_SCRIPT_TYPES = frozenset(
+    [
+        "",
+        "module",
+        "application/ecmascript",
+        "application/javascript",
+        "application/x-ecmascript",
+        "application/x-javascript",
+        "text/ecmascript",
+        "text/javascript",
+        "text/javascript1.0",
+        "text/javascript1.1",
+        "text/javascript1.2",
+        "text/javascript1.3",
+        "text/javascript1.4",
+        "text/javascript1.5",
+        "text/jscript",
+        "text/livescript",
+        "text/x-ecmascript",
+        "text/x-javascript",
+    ]
+)
+"""The types of scripts which are executed; the others (such as JSON-LD) are data
+that must stay in the document.
+"""
+
+
 class OutlineManipulator(HTMLManipulator):
     """Upon encountering a script tag without a src or a style
     tag, this will add a new script tag with the src pointing to the generated
@@ -199,6 +226,7 @@ class OutlineManipulator(HTMLManipulator):
             node["type"] == "StartTag"
             and node["name"] == "script"
             and (None, "src") not in node["data"]
+            and node["data"].get((None, "type"), "").strip().lower() in JS_SCRIPT_TYPES
         )
 
     def _should_outline_style(self, node: tkn.HTMLToken) -> bool:
-- 
2.43.0


From 5fff775c4c4985d05560de766c5026664bd8c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 12/67] fix: ignore only the bad buttons of an icon instead of
 crashing

---
 vanillaplusjs/build/css/manips/icons/manip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a8ece96..f33f3d1 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -541,7 +541,7 @@ class IconManipulator(CSSManipulator):
                     real_button,
                     button_by_identifier=dict(
                         (iden, setting)
-                        for iden, setting in real_button.button_by_identifier
+                        for iden, setting in real_button.button_by_identifier.items()
                         if iden not in purge_idens
                     ),
                 )
-- 
2.43.0


From b54eed05fb3fbde75e62417b4e89b30544f57694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 13/67] fix: rebuild icons when their svg changes

---
 vanillaplusjs/build/css/manips/icons/manip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index f33f3d1..d522fa7 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -74,6 +74,7 @@ class IconManipulator(CSSManipulator):
         css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
         if self.relpath != css_file_relpath:
             self.children.add(css_file_relpath)
+        self.children.add(args.input_icon)
 
         svg = None
         replacer = None
-- 
2.43.0


From ae670f56f78d6c10dd66c549e08ca5e72d3bbc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 14/67] fix: correct the named colors gray and sandybrown of
 icons

---
 vanillaplusjs/build/css/manips/icons/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index a29444d..7e67f89 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -271,7 +271,7 @@ NAMED_CSS_COLORS = {
     "ghostwhite": Color(red=248, green=248, blue=255),
     "gold": Color(red=255, green=215, blue=0),
     "goldenrod": Color(red=218, green=165, blue=32),
-    "gray": Color(red=127, green=127, blue=127),
+    "gray": Color(red=128, green=128, blue=128),
     "green": Color(red=0, green=128, blue=0),
     "greenyellow": Color(red=173, green=255, blue=47),
     "honeydew": Color(red=240, green=255, blue=240),
@@ -340,7 +340,7 @@ NAMED_CSS_COLORS = {
     "royalblue": Color(red=65, green=105, blue=225),
     "saddlebrown": Color(red=139, green=69, blue=19),
     "salmon": Color(red=250, green=128, blue=114),
-    "sandybrown": Color(red=250, green=128, blue=114),
+    "sandybrown": Color(red=244, green=164, blue=96),
     "seagreen": Color(red=46, green=139, blue=87),
     "seashell": Color(red=255, green=245, blue=238),
     "sienna": Color(red=160, green=82, blue=45),
-- 
2.43.0


From 4fdc9940ac33e93acda37905ec9a99a834e5a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 15/67] fix: read every color and icon size of :root, whatever
 the other declarations

---
 .../build/css/manips/icons/settings.py        | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 7e67f89..8610ceb 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -178,6 +178,10 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 # token is the left curly bracket for the :root qualified rule
                 token = next_significant()
                 while token["type"] != CSSTokenType.right_curly_bracket:
+                    if token["type"] == CSSTokenType.semicolon:
+                        token = next_significant()
+                        continue
+
                     if token["type"] != CSSTokenType.ident:
                         # parse error
                         break
@@ -189,19 +193,28 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                         # parse error
                         break
 
-                    component_value: List[CSSToken] = [next_significant()]
-                    if component_value[0]["type"] == CSSTokenType.function:
-                        token = next_significant()
-                        while token["type"] != CSSTokenType.right_parens:
-                            component_value.append(token)
-                            token = next_significant()
-                        component_value.append(token)
-
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.semicolon:
-                        # parse error
-                        break
+                    component_value: List[CSSToken] = []
                     token = next_significant()
+                    nest_level = 0
+                    while nest_level > 0 or token["type"] not in (
+                        CSSTokenType.semicolon,
+                        CSSTokenType.right_curly_bracket,
+                    ):
+                        if token["type"] in (
+                            CSSTokenType.function,
+                            CSSTokenType.left_parens,
+                            CSSTokenType.left_square_bracket,
+                            CSSTokenType.left_curly_bracket,
+                        ):
+                            nest_level += 1
+                        elif nest_level > 0 and token["type"] in (
+                            CSSTokenType.right_parens,
+                            CSSTokenType.right_square_bracket,
+                            CSSTokenType.right_curly_bracket,
+                        ):
+                            nest_level -= 1
+                        component_value.append(token)
+                        token = next_significant()
 
                     if component_name.startswith("--col-"):
                         color = interpret_as_color(component_value)
-- 
2.43.0


From 21ae911c60f0ec8cb9e00fd5ce5f0e1e44dcc67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 16/67] fix: allow buttons by identifier without a default
 button

---
 vanillaplusjs/build/css/manips/icons/settings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 8610ceb..3137a0a 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -108,15 +108,19 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 button_settings, button_by_identifier=dict()
             )
         else:
+            # without a default button the colors have no defaults
+            fallback = button_settings.default_button or ButtonSetting(
+                active_color=None, hover_color=None, disabled_color=None
+            )
             for button_identifier, button_config in button_by_identifier.items():
                 active_color: Optional[str] = button_config.get(
-                    "active_color", button_settings.default_button.active_color
+                    "active_color", fallback.active_color
                 )
                 hover_color: Optional[str] = button_config.get(
-                    "hover_color", button_settings.default_button.hover_color
+                    "hover_color", fallback.hover_color
                 )
                 disabled_color: Optional[str] = button_config.get(
-                    "disabled_color", button_settings.default_button.disabled_color
+                    "disabled_color", fallback.disabled_color
                 )
                 if (
                     active_color is not None
-- 
2.43.0


From 5143c7ab038df4c33b0a51a47d9f10d3f171a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 17/67] fix: rebuild icon commands which become valid when
 main.css changes

---
 vanillaplusjs/build/css/manips/icons/manip.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index d522fa7..de9ec11 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -71,9 +71,6 @@ class IconManipulator(CSSManipulator):
         args = self.get_icon_command_args(node)
         assert args is not None, "continue_mark on non-icon command"
 
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.children.add(css_file_relpath)
         self.children.add(args.input_icon)
 
         svg = None
@@ -482,6 +479,13 @@ class IconManipulator(CSSManipulator):
         except StopIteration as e:
             args: IconCommand = e.value
 
+        # whether, and as what, the command is valid depends on the ui kit
+        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
+        if self.relpath != css_file_relpath:
+            (self.dependencies if self.mode == "scan" else self.children).add(
+                css_file_relpath
+            )
+
         if args.icon_initial_color not in self.context.icon_settings.color_map:
             return
 
@@ -555,10 +559,6 @@ class IconManipulator(CSSManipulator):
         """Adds any dependencies or produces appropriate for the icon command
         with the given arguments.
         """
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.dependencies.add(css_file_relpath)
-
         self.dependencies.add(args.input_icon)
 
         for color in args.output_colors:
-- 
2.43.0


From f9b142e9fee792345c3ff4de0abe1475460caa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 18/67] fix: report the hash files of icons which are reused

---
 vanillaplusjs/build/css/manips/icons/manip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index de9ec11..69c383d 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -81,6 +81,7 @@ class IconManipulator(CSSManipulator):
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
                 self.reused.add(output_relpath)
+                self.reused.add(output_relpath + ".hash")
                 continue
             if svg is None:
                 with open(os.path.join(self.context.folder, args.input_icon)) as f:
-- 
2.43.0


From 1f495882c43acafb91d01cc6818dcb0894c9f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 19/67] fix: recolor icons however their svg spells the hex
 color

---
 vanillaplusjs/build/css/manips/icons/manip.py | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 69c383d..5ba02e0 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -1,3 +1,4 @@
+from vanillaplusjs.build.css.manips.icons.color import Color
 from vanillaplusjs.build.css.manips.icons.command import IconCommand
 from vanillaplusjs.build.css.manips.icons.parser import parse_icon_command
 from vanillaplusjs.build.css.manips.icons.settings import ButtonSetting
@@ -26,6 +27,21 @@ allows newlines in args
 """
 
 
+SVG_HEX_COLOR = re.compile(
+    r"""(?<=["':\s])#(?:[0-9a-fA-F]{6}|[0-9a-fA-F]{3})(?=["';\s])"""
+)
+"""Regex that matches hex colors within an attribute value of an svg"""
+
+
+def replace_color(svg: str, old: Color, new: str) -> str:
+    """Replaces the given color, however it is spelled as a hex color,
+    wherever it occurs in the attributes of the given svg.
+    """
+    return SVG_HEX_COLOR.sub(
+        lambda m: new if Color.from_hex(m.group(0)) == old else m.group(0), svg
+    )
+
+
 class IconManipulator(CSSManipulator):
     """Allows for easily introducing icons into the project, generating the
     necessary boilerplate from a single configurable command.
@@ -74,7 +90,7 @@ class IconManipulator(CSSManipulator):
         self.children.add(args.input_icon)
 
         svg = None
-        replacer = None
+        og_color = None
 
         for color in args.output_colors:
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
@@ -88,17 +104,15 @@ class IconManipulator(CSSManipulator):
                     svg = f.read()
 
                 og_color = self.context.icon_settings.color_map[args.icon_initial_color]
-                replacer = f'"{og_color.to_hex()}"'
-                if replacer not in svg:
+                if replace_color(svg, og_color, "") == svg:
                     logger.warning(
                         f"Icon {args.icon_name} does not have the "
                         f"color {args.icon_initial_color} ({og_color.to_hex()}) in it"
                     )
                     logger.debug(f"{svg=}")
-                    logger.debug(f"{replacer=}")
 
             target_color = self.context.icon_settings.color_map[color]
-            new_svg = svg.replace(replacer, f'"{target_color.to_hex()}"')
+            new_svg = replace_color(svg, og_color, target_color.to_hex())
             makedirs_safely(os.path.dirname(output_path))
             with open(output_path, "w", newline="\n") as f:
                 f.write(new_svg)
-- 
2.43.0


From 478c559652abb6bb8dda0eed6380f8ffc625fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 20/67] fix: keep the folder being served when a rebuild
 removes its last file

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 1bd8e1e..9d7b383 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -295,7 +295,8 @@ async def hot_incremental_rebuild(
         possibly_empty_folders = set()
         for file in itertools.chain(dirtied_outputs, dirtied_artifacts):
             folder = os.path.dirname(file)
-            while folder != "":
+            # the root of the website is kept, it may be being served
+            while folder not in ("", os.path.join("out", "www")):
                 possibly_empty_folders.add(folder)
                 folder = os.path.dirname(folder)
 
-- 
2.43.0


From 7eb510184a44cd07530b47fe65c960f9a822fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 21/67] fix: rebuild what depends on an existing file which
 becomes a placeholder

---
 .../build/hot_incremental_rebuild.py          | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 9d7b383..26540dd 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -155,23 +155,28 @@ async def hot_incremental_rebuild(
         # since what it depends on and produces may have changed along with the
         # contents of the modified file (e.g., the resolutions of an image).
         files_to_rebuild: Set[str] = set()
-        stack: List[str] = [*changed_files, *added_files, *deleted_files]
-        while stack:
-            file = stack.pop()
-            if file in files_to_rebuild:
-                continue
-            files_to_rebuild.add(file)
 
-            if file in old_dependency_graph:
-                stack.extend(old_dependency_graph.get_parents(file))
+        def mark_for_rebuild(files: List[str]) -> List[str]:
+            marked: List[str] = []
+            stack: List[str] = list(files)
+            while stack:
+                file = stack.pop()
+                if file in files_to_rebuild:
+                    continue
+                files_to_rebuild.add(file)
+                marked.append(file)
 
-            if file in old_placeholders_graph:
-                stack.extend(old_placeholders_graph.get_parents(file))
-                stack.extend(old_placeholders_graph.get_children(file))
+                if file in old_dependency_graph:
+                    stack.extend(old_dependency_graph.get_parents(file))
 
-        files_that_need_scanning = [
-            file for file in files_to_rebuild if file not in deleted_files
-        ]
+                if file in old_placeholders_graph:
+                    stack.extend(old_placeholders_graph.get_parents(file))
+                    stack.extend(old_placeholders_graph.get_children(file))
+            return [file for file in marked if file not in deleted_files]
+
+        files_that_need_scanning = mark_for_rebuild(
+            [*changed_files, *added_files, *deleted_files]
+        )
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
@@ -197,6 +202,10 @@ async def hot_incremental_rebuild(
                                 placeholder_relpath in old_dependency_graph
                                 or placeholder_relpath in added_files
                             ) and placeholder_relpath not in deleted_files:
+                                # it may not have been a placeholder before
+                                files_that_need_scanning.extend(
+                                    mark_for_rebuild([placeholder_relpath])
+                                )
                                 continue
                         else:
                             logger.info(
@@ -208,15 +217,17 @@ async def hot_incremental_rebuild(
                                 os.path.join(context.folder, placeholder_relpath), "w"
                             ) as f:
                                 f.write(placeholder_contents)
-                        files_that_need_scanning.append(placeholder_relpath)
                         new_placeholders[placeholder_relpath] = scanned_file_relpath
                         added_files[placeholder_relpath] = get_file_signature(
                             os.path.join(context.folder, placeholder_relpath)
                         )
-                        files_to_rebuild.add(placeholder_relpath)
                         deleted_files = [
                             f for f in deleted_files if f != placeholder_relpath
                         ]
+                        files_to_rebuild.discard(placeholder_relpath)
+                        files_that_need_scanning.extend(
+                            mark_for_rebuild([placeholder_relpath])
+                        )
 
         # When the scan file result marks an output file as a dependency,
         # we must reinterpret that as a dependency on a file which intends
-- 
2.43.0


From 42b265987fb2f9603b32cd14472e6093bd429ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 22/67] fix: normalize line breaks wherever they are split
 between reads

---
 vanillaplusjs/build/ioutil.py | 38 +++++++++++++++--------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 66b7e1a..30bd1c5 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -80,6 +80,11 @@ class PeekableTextIO:
 
             return self.buffer[:n]
 
+        if n == -1:
+            self.seen_eof = True
+            self.buffer += self.fp.read() or ""
+            return self.buffer or None
+
         if len(self.buffer) >= n:
             return self.buffer[:n]
 
@@ -113,11 +118,12 @@ class PreprocessedTextIO:
         are more characters available, due to substitutions.
         """
         res = self.fp.read(n)
-        if res is None:
+        if not res:
             return None
         if len(res) == n and res[-1] == "\r":
+            # a line break counts as one character, never split it
             if self.fp.peek(1) == "\n":
-                res = res[:-1]
+                self.fp.read(1)
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -132,14 +138,9 @@ class PreprocessedTextIO:
         This may return fewer characters than requested even if there
         are more characters available, due to substitutions.
         """
-        res = self.fp.peek(n if n < 1 else n + 1)
-        if res is None:
+        res = self.fp.peek(n)
+        if not res:
             return None
-        if n >= 1 and len(res) == n + 1:
-            if res[-2:] == "\r\n":
-                res = res[:-2]
-            else:
-                res = res[:-1]
 
         res = CARRIAGE_RETURN_LIKE.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
@@ -155,9 +156,6 @@ class PreprocessedTextIO:
         if res is None or n < 1 or len(res) == n:
             return res
 
-        if len(res) == 0:
-            return None
-
         while len(res) < n:
             additional = self._read(n - len(res))
             if additional is None:
@@ -176,18 +174,14 @@ class PreprocessedTextIO:
         if res is None or n < 1 or len(res) == n:
             return res
 
-        if len(res) == 0:
-            return None
-
         attempted_peek_length = n
-        while True:
-            old_actual_peek_length = len(res)
-            missing_characters = n - old_actual_peek_length
-            new_peek_length = attempted_peek_length + missing_characters
-            res = self._peek(new_peek_length)
-            if len(res) == n or len(res) == old_actual_peek_length:
+        while len(res) < n:
+            if len(self.fp.peek(attempted_peek_length)) < attempted_peek_length:
+                # we already have everything that remains
                 return res
-            attempted_peek_length = new_peek_length
+            attempted_peek_length += n - len(res)
+            res = self._peek(attempted_peek_length)
+        return res[:n]
 
 
 def makedirs_safely(path: str) -> None:
-- 
2.43.0


From bd80eb41395686d501892cc98a631d875d144228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 23/67] fix: tokenize non-ascii digits and the end of css files
 as the standard says

---
 vanillaplusjs/build/css/tokenizer.py | 50 ++++++++++++++++------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index 1fe32b6..da1ef4c 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -2,6 +2,7 @@
 Specifically, this implements the consume token section:
 https://www.w3.org/TR/css-syntax-3/#consume-token
 """
+import string
 from io import TextIOBase
 from typing import Generator, Literal, Optional, Tuple, Union
 from .token import CSSToken, CSSTokenType
@@ -45,7 +46,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
         if peeked == "#":
             peekable.read(1)
             peek_2 = peekable.peek(2)
-            if len(peek_2) == 0:
+            if not peek_2:
                 yield CSSToken(type=CSSTokenType.delim, value="#")
                 continue
 
@@ -175,7 +176,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
             yield CSSToken(type=CSSTokenType.right_curly_bracket)
             continue
 
-        if peeked.isdigit():
+        if _is_digit(peeked):
             yield _consume_numeric_token(peekable)
             continue
 
@@ -212,8 +213,9 @@ def _consume_comment(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     comment = ""
     while True:
         peeked = fp.peek(2)
-        if peeked is None:
-            return None
+        if not peeked:
+            # parse error
+            return CSSToken(type=CSSTokenType.comment, value=comment)
         if peeked == "*/":
             fp.read(2)
             return CSSToken(type=CSSTokenType.comment, value=comment)
@@ -341,7 +343,7 @@ def _consume_number(
             if repr in "+-" or repr == "":
                 return None
             return int(repr), res_type
-        if not peeked.isdigit():
+        if not _is_digit(peeked):
             break
         repr += fp.read(1)
 
@@ -349,14 +351,14 @@ def _consume_number(
     if peek_2 is None or len(peek_2) < 2:
         return int(repr), res_type
 
-    if peek_2[0] == "." and peek_2[1].isdigit():
+    if peek_2[0] == "." and _is_digit(peek_2[1]):
         repr += fp.read(2)
         res_type = "number"
         while True:
             peeked = fp.peek(1)
             if peeked is None:
                 return float(repr), res_type
-            if not peeked.isdigit():
+            if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
@@ -365,8 +367,8 @@ def _consume_number(
         return float(repr), res_type
 
     if peek_3[0] in "eE" and (
-        peek_3[1].isdigit()
-        or (peek_3[1] in "+-" and len(peek_3) == 3 and peek_3[2].isdigit())
+        _is_digit(peek_3[1])
+        or (peek_3[1] in "+-" and len(peek_3) == 3 and _is_digit(peek_3[2]))
     ):
         res_type = "number"
         repr += fp.read(2)
@@ -374,7 +376,7 @@ def _consume_number(
             peeked = fp.peek(1)
             if peeked is None:
                 return float(repr), res_type
-            if not peeked.isdigit():
+            if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
@@ -418,8 +420,8 @@ def _consume_ident_like(fp: PreprocessedTextIO) -> Optional[CSSToken]:
 
     https://www.w3.org/TR/css-syntax-3/#consume-an-ident-like-token
     """
-    string = _consume_ident_sequence(fp)
-    if len(string) == 3 and string.lower() == "url" and fp.peek(1) == "(":
+    ident = _consume_ident_sequence(fp)
+    if len(ident) == 3 and ident.lower() == "url" and fp.peek(1) == "(":
         fp.read(1)
         while True:
             peek_2 = fp.peek(2)
@@ -429,19 +431,19 @@ def _consume_ident_like(fp: PreprocessedTextIO) -> Optional[CSSToken]:
 
         peek_2 = fp.peek(2)
         if peek_2 is None or peek_2 == "":
-            return CSSToken(type=CSSTokenType.ident, value=string)
+            return CSSToken(type=CSSTokenType.ident, value=ident)
         if peek_2[0] in ('"', "'") or (
             len(peek_2) == 2 and _is_whitespace(peek_2[0]) and peek_2[1] in ('"', "'")
         ):
-            return CSSToken(type=CSSTokenType.function, value=string)
+            return CSSToken(type=CSSTokenType.function, value=ident)
 
         return _consume_url(fp)
 
     if fp.peek(1) == "(":
         fp.read(1)
-        return CSSToken(type=CSSTokenType.function, value=string)
+        return CSSToken(type=CSSTokenType.function, value=ident)
 
-    return CSSToken(type=CSSTokenType.ident, value=string)
+    return CSSToken(type=CSSTokenType.ident, value=ident)
 
 
 def _consume_url(fp: PreprocessedTextIO) -> Optional[CSSToken]:
@@ -487,7 +489,7 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
         if consumed is None or consumed == "" or consumed == ")":
             return
 
-        if _is_valid_escape(consumed + fp.peek(1)):
+        if _is_valid_escape(consumed + (fp.peek(1) or "")):
             _consume_escaped_code_point(fp)
             continue
 
@@ -495,6 +497,10 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
 HEX_CHARACTERS = "0123456789abcdefABCDEF"
 
 
+def _is_digit(char: str) -> bool:
+    return char in string.digits
+
+
 def _is_hex_digit(char: str) -> bool:
     return char is not None and char in HEX_CHARACTERS
 
@@ -510,13 +516,13 @@ def _is_whitespace(char: Optional[str]) -> bool:
 def _is_ident_start_codepoint(char: Optional[str]) -> bool:
     if char is None:
         return False
-    return char.isalpha() or ord(char) >= 0x0080 or char == "_"
+    return char in string.ascii_letters or ord(char) >= 0x0080 or char == "_"
 
 
 def _is_ident_codepoint(char: Optional[str]) -> bool:
     if char is None:
         return False
-    return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
+    return _is_ident_start_codepoint(char) or _is_digit(char) or char == "-"
 
 
 def _is_valid_escape(two: str) -> bool:
@@ -568,12 +574,12 @@ def _is_number(three: Optional[str]) -> bool:
         return False
 
     if three[0] in "+-":
-        return three[1].isdigit() or (three[1] == "." and three[2].isdigit())
+        return _is_digit(three[1]) or (three[1] == "." and _is_digit(three[2]))
 
     if three[0] == ".":
-        return three[1].isdigit()
+        return _is_digit(three[1])
 
-    return three[0].isdigit()
+    return _is_digit(three[0])
 
 
 def _is_non_printable(char: Optional[str]) -> bool:
-- 
2.43.0


From 9d2a7ebb5d04b7d91478792ec2ae92559e2fba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 24/67] fix: keep the sign of css numbers, 2n+1 is not 2n1

---
 vanillaplusjs/build/css/serializer.py | 13 ++++++++++---
 vanillaplusjs/build/css/token.py      |  5 +++++
 vanillaplusjs/build/css/tokenizer.py  | 23 +++++++++++++----------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index 35df8ea..12010b3 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -27,11 +27,11 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.right_parens:
         return ")"
     elif token["type"] == CSSTokenType.number:
-        return str(token["value"])
+        return serialize_number(token)
     elif token["type"] == CSSTokenType.percentage:
-        return str(token["value"]) + "%"
+        return serialize_number(token) + "%"
     elif token["type"] == CSSTokenType.dimension:
-        return str(token["value"]) + token["unit"]
+        return serialize_number(token) + token["unit"]
     elif token["type"] == CSSTokenType.comma:
         return ","
     elif token["type"] == CSSTokenType.cdc:
@@ -74,6 +74,13 @@ def serialize(token: CSSToken) -> str:
     raise ValueError("Unknown token type: " + repr(token["type"]))
 
 
+def serialize_number(token: CSSToken) -> str:
+    """Serializes the number of the given number, percentage or dimension as
+    it was written."""
+    written = token.get("repr")
+    return written if written is not None else str(token["value"])
+
+
 def serialize_many(token: Iterable[CSSToken]) -> str:
     """Serializes the given CSS tokens."""
     return "".join(serialize(t) for t in token)
diff --git a/vanillaplusjs/build/css/token.py b/vanillaplusjs/build/css/token.py
index b444ffe..8044c7e 100644
--- a/vanillaplusjs/build/css/token.py
+++ b/vanillaplusjs/build/css/token.py
@@ -77,6 +77,11 @@ class CSSToken(TypedDict):
     hash tokens are valid id selectors.
     """
 
+    repr: Optional[str]
+    """How the number, percentage or dimension was written, e.g., "+1" or "1.0";
+    this matters for the an+b notation, 2n+1. If unset, str(value) is assumed.
+    """
+
     unit: Optional[str]
     """The dimension token may have the unit set to one or more
     code points. In all other cases, the unit is None or unset
diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index da1ef4c..e1e0dd9 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -322,8 +322,8 @@ def _consume_ident_sequence(fp: PreprocessedTextIO) -> str:
 
 def _consume_number(
     fp: PreprocessedTextIO,
-) -> Optional[Tuple[Union[int, float], Literal["integer', 'number"]]]:
-    """Consumes a number
+) -> Optional[Tuple[Union[int, float], Literal["integer', 'number"], str]]:
+    """Consumes a number, returning its value, type, and how it was written
 
     https://www.w3.org/TR/css-syntax-3/#consume-a-number
     """
@@ -342,14 +342,14 @@ def _consume_number(
         if peeked is None:
             if repr in "+-" or repr == "":
                 return None
-            return int(repr), res_type
+            return int(repr), res_type, repr
         if not _is_digit(peeked):
             break
         repr += fp.read(1)
 
     peek_2 = fp.peek(2)
     if peek_2 is None or len(peek_2) < 2:
-        return int(repr), res_type
+        return int(repr), res_type, repr
 
     if peek_2[0] == "." and _is_digit(peek_2[1]):
         repr += fp.read(2)
@@ -357,14 +357,14 @@ def _consume_number(
         while True:
             peeked = fp.peek(1)
             if peeked is None:
-                return float(repr), res_type
+                return float(repr), res_type, repr
             if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
     peek_3 = fp.peek(3)
     if peek_3 is None or len(peek_3) < 2:
-        return float(repr), res_type
+        return float(repr), res_type, repr
 
     if peek_3[0] in "eE" and (
         _is_digit(peek_3[1])
@@ -375,14 +375,14 @@ def _consume_number(
         while True:
             peeked = fp.peek(1)
             if peeked is None:
-                return float(repr), res_type
+                return float(repr), res_type, repr
             if not _is_digit(peeked):
                 break
             repr += fp.read(1)
 
     if res_type == "integer":
-        return int(repr), res_type
-    return float(repr), res_type
+        return int(repr), res_type, repr
+    return float(repr), res_type, repr
 
 
 def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
@@ -390,13 +390,14 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     or a dimension token.
     https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
     """
-    number_value, number_type = _consume_number(fp)
+    number_value, number_type, number_repr = _consume_number(fp)
 
     if _is_ident_sequence(fp.peek(3)):
         return CSSToken(
             type=CSSTokenType.dimension,
             value=number_value,
             type_flag=number_type,
+            repr=number_repr,
             unit=_consume_ident_sequence(fp),
         )
 
@@ -406,12 +407,14 @@ def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
             type=CSSTokenType.percentage,
             value=number_value,
             type_flag=number_type,
+            repr=number_repr,
         )
 
     return CSSToken(
         type=CSSTokenType.number,
         value=number_value,
         type_flag=number_type,
+        repr=number_repr,
     )
 
 
-- 
2.43.0


From 2eb6f65944a395b8ee4f1fa4471fec6efe7e62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 25/67] fix: escape characters of js strings the way js does,
 not css

---
 vanillaplusjs/build/js/serializer.py | 34 +++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 7615e14..3a2aebc 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -1,6 +1,5 @@
 from typing import Iterable, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
 
 
 def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
@@ -49,6 +48,39 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
     raise ValueError("Unknown token type: " + repr(token["type"]))
 
 
+SPECIAL_ESCAPE_CHARACTERS = {
+    "\\": "\\\\",
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t",
+    "\b": "\\b",
+    "\f": "\\f",
+    "\v": "\\v",
+}
+
+
+def serialize_string_auto_quote(string: str) -> str:
+    """Serializes the given string, automatically choosing the best quote
+    character."""
+    quote = "'" if '"' in string and "'" not in string else '"'
+    res = quote
+    for char in string:
+        char_ord = ord(char)
+        if char == quote:
+            res += "\\" + char
+        elif char in SPECIAL_ESCAPE_CHARACTERS:
+            res += SPECIAL_ESCAPE_CHARACTERS[char]
+        elif " " <= char <= "~":
+            res += char
+        elif char_ord <= 0xFF:
+            res += f"\\x{char_ord:02x}"
+        elif char_ord <= 0xFFFF:
+            res += f"\\u{char_ord:04x}"
+        else:
+            res += f"\\u{{{char_ord:x}}}"
+    return res + quote
+
+
 def serialize_many(token: Iterable[JSToken]) -> str:
     """Serializes the given JS tokens."""
     return "".join(serialize(t) for t in token)
-- 
2.43.0


From 3b5f3456801866a54c428c1492c5404cb97fd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 26/67] fix: write every json value of the js constants as js

---
 vanillaplusjs/build/handlers/js_constants.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index f7bfa90..c5f0cd7 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -3,11 +3,12 @@
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
+from vanillaplusjs.build.js.serializer import serialize_string_auto_quote
 import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+import json
 import os
 
 
@@ -64,13 +65,4 @@ def jsify(val) -> str:
     if isinstance(val, str):
         return serialize_string_auto_quote(val)
 
-    if val is True:
-        return "true"
-
-    if val is False:
-        return "false"
-
-    if isinstance(val, (int, float)):
-        return str(val)
-
-    return repr(val)
+    return json.dumps(val)
-- 
2.43.0


From 20a3f3959a5833ec4f304175e4d8434acc90f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 27/67] fix: escape css identifiers, strings and urls when
 serializing them

---
 vanillaplusjs/build/css/manips/icons/manip.py | 29 ++++--
 vanillaplusjs/build/css/serializer.py         | 89 +++++++++++++------
 2 files changed, 82 insertions(+), 36 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 5ba02e0..6f764b4 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -284,7 +284,7 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="border-radius"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value=0),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="box-shadow"),
@@ -302,13 +302,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="padding"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value=0),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="margin"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value=0),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="text-align"),
@@ -334,8 +334,10 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -350,9 +352,12 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix} .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="background"),
@@ -423,8 +428,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:hover .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="hover"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -444,8 +454,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index 12010b3..c8995b8 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -1,3 +1,4 @@
+import re
 from typing import Iterable
 from .token import CSSToken, CSSTokenType
 
@@ -19,7 +20,9 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.bad_string:
         return '"\n'
     elif token["type"] == CSSTokenType.hash:
-        return "#" + token["value"]
+        if token.get("type_flag") == "id":
+            return "#" + serialize_ident(token["value"])
+        return "#" + serialize_name(token["value"])
     elif token["type"] == CSSTokenType.delim:
         return token["value"]
     elif token["type"] == CSSTokenType.left_parens:
@@ -31,20 +34,22 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.percentage:
         return serialize_number(token) + "%"
     elif token["type"] == CSSTokenType.dimension:
-        return serialize_number(token) + token["unit"]
+        return serialize_number(token) + serialize_unit(token["unit"])
     elif token["type"] == CSSTokenType.comma:
         return ","
     elif token["type"] == CSSTokenType.cdc:
         return "-->"
     elif token["type"] == CSSTokenType.ident:
-        return token["value"]
+        return serialize_ident(token["value"])
     elif token["type"] == CSSTokenType.function:
-        return token["value"] + "("
+        return serialize_ident(token["value"]) + "("
     elif token["type"] == CSSTokenType.url:
         return (
             "url("
             + serialize_string(
-                token["value"], quote="", simple_escape_characters=('"', "'", "(", "\\")
+                token["value"],
+                quote="",
+                simple_escape_characters=('"', "'", "(", ")", " ", "\\"),
             )
             + ")"
         )
@@ -57,7 +62,7 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.cdo:
         return "<!--"
     elif token["type"] == CSSTokenType.at_keyword:
-        return "@" + token["value"]
+        return "@" + serialize_ident(token["value"])
     elif token["type"] == CSSTokenType.left_square_bracket:
         return "["
     elif token["type"] == CSSTokenType.right_square_bracket:
@@ -81,6 +86,53 @@ def serialize_number(token: CSSToken) -> str:
     return written if written is not None else str(token["value"])
 
 
+def serialize_name(value: str) -> str:
+    """Serializes a sequence of ident code points, escaping the other ones"""
+    res = ""
+    for char in value:
+        if char.isascii() and not char.isalnum() and char not in "-_":
+            res += escape_char(char)
+        else:
+            res += char
+    return res
+
+
+def serialize_ident(value: str) -> str:
+    """Serializes an identifier, which may not start like a number.
+
+    https://drafts.csswg.org/cssom/#serialize-an-identifier
+    """
+    if value == "-":
+        return "\\-"
+
+    prefix = "-" if value.startswith("-") else ""
+    rest = value[len(prefix) :]
+    if rest[:1] in tuple("0123456789"):
+        return prefix + escape_as_code_point(rest[0]) + serialize_name(rest[1:])
+    return serialize_name(value)
+
+
+def serialize_unit(unit: str) -> str:
+    """Serializes the unit of a dimension, which may not look like an exponent"""
+    if re.match(r"[eE][+-]?[0-9]", unit):
+        return escape_as_code_point(unit[0]) + serialize_name(unit[1:])
+    return serialize_ident(unit)
+
+
+def escape_char(char: str) -> str:
+    """Escapes the given character within an identifier"""
+    if char in "\0\n\r\f" or char < " " or char == "\x7f":
+        return escape_as_code_point(char)
+    return "\\" + char
+
+
+def escape_as_code_point(char: str) -> str:
+    """Escapes the given character by its number. The trailing space is part
+    of the escape.
+    """
+    return "\\" + hex(ord(char))[2:] + " "
+
+
 def serialize_many(token: Iterable[CSSToken]) -> str:
     """Serializes the given CSS tokens."""
     return "".join(serialize(t) for t in token)
@@ -96,17 +148,6 @@ def serialize_string_auto_quote(string: str) -> str:
     return serialize_string(string, '"')
 
 
-SPECIAL_ESCAPE_CHARACTERS = {
-    "\n": "\\n",
-    "\r": "\\r",
-    "\t": "\\t",
-    "\b": "\\b",
-    "\f": "\\f",
-    "\v": "\\v",
-    "\0": "\\0",
-}
-
-
 def serialize_string(string: str, quote: str, simple_escape_characters=("\\",)) -> str:
     """Serializes the given string, using the given quote character."""
     res = quote
@@ -115,18 +156,8 @@ def serialize_string(string: str, quote: str, simple_escape_characters=("\\",))
             res += "\\" + char
             continue
 
-        if char in SPECIAL_ESCAPE_CHARACTERS:
-            res += SPECIAL_ESCAPE_CHARACTERS[char]
-            continue
-
-        char_ord = ord(char)
-        if (
-            0 <= char_ord <= 8
-            or char_ord == 0x000B
-            or 0x000E <= char_ord <= 0x001F
-            or char_ord >= 0x007F
-        ):
-            res += "\\" + hex(char_ord)[2:]
+        if char < " " or char >= "\x7f":
+            res += escape_as_code_point(char)
             continue
 
         res += char
-- 
2.43.0


From 8490fa53a90efa4f3a47b1fa12d4dcec12a04f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 28/67] fix: tokenize js identifiers which start with a dollar
 sign or underscore

---
 vanillaplusjs/build/js/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index bb5a1f2..3d9549e 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -168,7 +168,7 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
         if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
             peekable.read(1)
             res += _consume_unicode_escape_sequence(peekable)
-        elif not res and is_id_start(peeked):
+        elif not res and (peeked in "$_" or is_id_start(peeked)):
             res += peekable.read(1)
         elif res and (peeked in "$\u200C\u200D" or is_id_continue(peeked)):
             res += peekable.read(1)
-- 
2.43.0


From 97c80ab419a6ab659b90b68851da727da674f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 29/67] fix: read every escape sequence of js strings

---
 vanillaplusjs/build/js/tokenizer.py | 86 +++++++++++++++++++----------
 1 file changed, 57 insertions(+), 29 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 3d9549e..61b8cb8 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -9,6 +9,7 @@ from io import TextIOBase
 from typing import Generator, Optional, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
+import re
 import string
 from .unicode_derived import is_id_start, is_id_continue
 
@@ -229,45 +230,72 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
     peeked character is a quote.
     """
     quote = peekable.read(1)
+    raw = quote
     res = ""
     while True:
         peeked = peekable.peek(1)
-        if not peeked or _is_newline(peeked):
-            return JSToken(type=JSTokenType.invalid, value=quote + res)
+        if not peeked or peeked == "\n":
+            return JSToken(type=JSTokenType.invalid, value=raw)
         if peeked == quote:
             peekable.read(1)
             return JSToken(type=JSTokenType.string_literal, value=res)
         if peeked == "\\":
-            if _is_unicode_escape_sequence(peekable.peek(10)[1:]):
-                peekable.read(1)
-                res += _consume_unicode_escape_sequence(peekable)
-            else:
-                peekable.read(1)
-                peeked = peekable.peek(1)
-                if not peeked:
-                    return JSToken(type=JSTokenType.invalid, value=quote + res + "\\")
-
-                escaped = peekable.read(1)
-                if escaped == "n":
-                    res += "\n"
-                elif escaped == "r":
-                    res += "\r"
-                elif escaped == "t":
-                    res += "\t"
-                elif escaped == "b":
-                    res += "\b"
-                elif escaped == "f":
-                    res += "\f"
-                elif escaped == "v":
-                    res += "\v"
-                elif escaped == "0":
-                    res += "\0"
-                else:
-                    res += escaped
+            if peekable.peek(2) == "\\":
+                return JSToken(type=JSTokenType.invalid, value=raw + peekable.read(1))
+            escape = _peek_escape_sequence(peekable)
+            raw += peekable.read(len(escape))
+            res += _decode_escape_sequence(escape)
         else:
+            raw += peeked
             res += peekable.read(1)
 
 
+ESCAPE_SEQUENCE = re.compile(
+    r"\\(?:u[0-9a-fA-F]{4}|u\{0*(?:10|[0-9a-fA-F])?[0-9a-fA-F]{1,4}\}|x[0-9a-fA-F]{2}"
+    r"|[0-3][0-7]{0,2}|[4-7][0-7]?|[\s\S])"
+)
+"""A backslash within a string literal and what belongs to it
+
+https://tc39.es/ecma262/#prod-EscapeSequence
+"""
+
+SINGLE_ESCAPE_CHARACTERS = {
+    "n": "\n",
+    "r": "\r",
+    "t": "\t",
+    "b": "\b",
+    "f": "\f",
+    "v": "\v",
+    "\n": "",
+    "\u2028": "",
+    "\u2029": "",
+}
+
+
+def _peek_escape_sequence(peekable: PeekableTextIO) -> str:
+    """Determines the text of the escape sequence, including the leading backslash,
+    that the given peekable is at.
+    """
+    size = 10
+    text = peekable.peek(size)
+    while text.startswith("\\u{") and "}" not in text and len(text) == size:
+        size *= 2
+        text = peekable.peek(size)
+    return ESCAPE_SEQUENCE.match(text).group()
+
+
+def _decode_escape_sequence(escape: str) -> str:
+    """Determines which characters the given escape sequence, including the leading
+    backslash, stands for.
+    """
+    char = escape[1]
+    if len(escape) > 2 and char in "ux":
+        return chr(int(escape[2:].strip("{}"), 16))
+    if char in "01234567":
+        return chr(int(escape[1:], 8))
+    return SINGLE_ESCAPE_CHARACTERS.get(char, char)
+
+
 def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]:
     """Consumes a regular expression literal from the given peekable, assuming that
     the current peeked character is a slash.
@@ -331,7 +359,7 @@ def _is_unicode_escape_sequence(nine: str) -> bool:
         return False
 
     if nine[1] == "{":
-        for i in range(2, len(nine) - 1):
+        for i in range(2, len(nine)):
             if nine[i] == "}":
                 if i == 2:
                     return False
-- 
2.43.0


From 3d14851cc296a6560be92105d7337a4bdcf2a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 30/67] fix: tell divisions, template literals and regular
 expressions of js apart

---
 vanillaplusjs/build/js/serializer.py |   2 +
 vanillaplusjs/build/js/token.py      |   5 +
 vanillaplusjs/build/js/tokenizer.py  | 158 ++++++++++++++++++++++++---
 3 files changed, 148 insertions(+), 17 deletions(-)

diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 3a2aebc..cdaaede 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -38,6 +38,8 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
         return serialize_string_auto_quote(token["value"])
     elif token["type"] == JSTokenType.regex:
         return f"/{token['value']}/{token['extra']}"
+    elif token["type"] == JSTokenType.template:
+        return token["value"]
     elif token["type"] == JSTokenType.semicolon:
         return ";"
     elif token["type"] == JSTokenType.invalid:
diff --git a/vanillaplusjs/build/js/token.py b/vanillaplusjs/build/js/token.py
index b7928a5..ebcff79 100644
--- a/vanillaplusjs/build/js/token.py
+++ b/vanillaplusjs/build/js/token.py
@@ -45,6 +45,11 @@ class JSTokenType(str, Enum):
     """Value is the contents of the matched regular expression literal, e.g., for /\g/, the value is '\\g'
     The `extra` field contains the flags, if any. so for /foo/g, the value is 'foo' and the extra is 'g'
     """
+    template = "TemplateLiteral"
+    """Value is the text of a part of a template literal: it starts either with
+    the backtick or with the end of a substitution, and ends either with the
+    backtick or the start of a substitution
+    """
     invalid = "Invalid"
     """Value is the contents of the invalid token"""
     eof = "EOF"
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 61b8cb8..d9a2f73 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -6,9 +6,10 @@ just enough tokens that for a javascript module we can detect any import stateme
 that the document starts with.
 """
 from io import TextIOBase
-from typing import Generator, Optional, Union
+from typing import Generator, List, Optional, Tuple, Union
+from vanillaplusjs.build.js.serializer import serialize
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
+from vanillaplusjs.build.ioutil import PeekableTextIO
 import re
 import string
 from .unicode_derived import is_id_start, is_id_continue
@@ -31,8 +32,20 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     Returns:
         None
     """
-    peekable = PreprocessedTextIO(PeekableTextIO(fp))
-    del fp
+    context = _Context()
+    for token in _tokenize(PeekableTextIO(fp), context):
+        context.update(token)
+        yield token
+
+
+def _tokenize(
+    peekable: PeekableTextIO, context: "_Context"
+) -> Generator[Union[JSToken, JSTokenWithExtra], None, None]:
+    if peekable.peek(2) == "#!":
+        hashbang = ""
+        while (peeked := peekable.peek(1)) and not _is_newline(peeked):
+            hashbang += peekable.read(1)
+        yield JSToken(type=JSTokenType.invalid, value=hashbang)
 
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
@@ -57,6 +70,10 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield JSToken(type=JSTokenType.open_curly_bracket, value=None)
             continue
 
+        if peeked == "}" and context.in_template():
+            yield _consume_template(peekable)
+            continue
+
         if peeked == "}":
             peekable.read(1)
             yield JSToken(type=JSTokenType.close_curly_bracket, value=None)
@@ -85,7 +102,11 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield _consume_string_literal(peekable)
             continue
 
-        if peeked == "/":
+        if peeked == "`":
+            yield _consume_template(peekable)
+            continue
+
+        if peeked == "/" and context.regex_allowed:
             yield _consume_regex(peekable)
             continue
 
@@ -94,6 +115,98 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     yield JSToken(type=JSTokenType.eof, value=None)
 
 
+KEYWORDS_BEFORE_EXPRESSION = frozenset(
+    "await case delete do else extends in instanceof new return throw typeof void yield".split()
+)
+
+KEYWORDS_BEFORE_PARENTHESIS = frozenset("for if while with".split())
+
+INSIGNIFICANT_TYPES = frozenset(
+    [JSTokenType.whitespace, JSTokenType.line_terminator, JSTokenType.comment]
+)
+
+
+class _Context:
+    """Keeps track of just enough of what was tokenized to tell apart a division
+    from the start of a regular expression, and the end of a block from the
+    end of a substitution in a template.
+
+    https://tc39.es/ecma262/#sec-ecmascript-language-lexical-grammar
+    """
+
+    def __init__(self) -> None:
+        self.regex_allowed = True
+        """If a slash would start a regular expression"""
+
+        self.open_brackets: List[Tuple[str, bool]] = []
+        """The brackets which are not yet closed, and if a slash would start
+        a regular expression after they are closed. The bracket of a template
+        substitution is "${"
+        """
+
+        self.previous = ""
+        """The text of the last significant token"""
+
+        self.before_previous = ""
+        """The text of the significant token before previous"""
+
+        self.adjacent = False
+        """If nothing came after previous"""
+
+    def in_template(self) -> bool:
+        return bool(self.open_brackets) and self.open_brackets[-1][0] == "${"
+
+    def update(self, token: JSToken) -> None:
+        if token["type"] in INSIGNIFICANT_TYPES:
+            self.adjacent = False
+            return
+
+        text = serialize(token)
+        after_dot = self.previous in (".", "#")
+
+        if token["type"] == JSTokenType.template:
+            if text.startswith("}"):
+                self.open_brackets.pop()
+            self.regex_allowed = text.endswith("${")
+            if self.regex_allowed:
+                self.open_brackets.append(("${", False))
+        elif token["type"] in (JSTokenType.string_literal, JSTokenType.regex):
+            self.regex_allowed = False
+        elif text in ("(", "["):
+            keyword = self.previous if self.before_previous != "." else ""
+            self.open_brackets.append((text, keyword in KEYWORDS_BEFORE_PARENTHESIS))
+            self.regex_allowed = True
+        elif text == "{":
+            self.open_brackets.append((text, not self._expects_value()))
+            self.regex_allowed = True
+        elif text in (")", "]", "}"):
+            self.regex_allowed = bool(self.open_brackets) and (
+                self.open_brackets.pop()[1]
+            )
+        elif token["type"] in (JSTokenType.invalid, JSTokenType.asterisk):
+            is_update = text in "+-" and self.adjacent and self.previous == text
+            self.regex_allowed = text not in (".", "#") and not is_update
+        elif token["type"] in (JSTokenType.comma, JSTokenType.semicolon):
+            self.regex_allowed = True
+        else:
+            self.regex_allowed = text in KEYWORDS_BEFORE_EXPRESSION and not after_dot
+
+        self.before_previous = self.previous
+        self.previous = text
+        self.adjacent = True
+
+    def _expects_value(self) -> bool:
+        """If an opening curly bracket would start an object rather than a block"""
+        if self.previous in ("", ";", "{", "}", ")", "else", "do"):
+            return False
+        if self.previous == ">" and self.before_previous == "=":
+            return False  # the body of a function
+        if self.previous == ":":
+            # either the value of a property, or after a case or label
+            return bool(self.open_brackets) and not self.open_brackets[-1][1]
+        return self.regex_allowed
+
+
 def tokenize_and_close(fp: TextIOBase) -> Generator[JSToken, None, None]:
     """The same as tokenize, except at the end it closes the file handle"""
     try:
@@ -301,28 +414,25 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
     the current peeked character is a slash.
     """
     peekable.read(1)
-    group_level = 0
+    in_class = False
     res = ""
     while True:
         peeked = peekable.peek(1)
         if not peeked or _is_newline(peeked):
             return JSToken(type=JSTokenType.invalid, value="/" + res)
-        if group_level == 0 and peeked == "/":
+        if not in_class and peeked == "/":
             peekable.read(1)
             break
-        if peeked == "\\" and peekable.peek(2) == "\\/":
+        if peeked == "\\" and not _is_newline(peekable.peek(2)[1:] or "\n"):
             res += peekable.read(2)
             continue
-        if group_level > 0 and peeked == "]":
-            group_level -= 1
         if peeked == "[":
-            group_level += 1
+            in_class = True
+        elif peeked == "]":
+            in_class = False
         res += peekable.read(1)
     flags = ""
-    while True:
-        peeked = peekable.peek(1)
-        if peeked is None or peeked not in "igmsuyd":
-            break
+    while (peeked := peekable.peek(1)) and is_id_continue(peeked):
         flags += peekable.read(1)
 
     return JSTokenWithExtra(
@@ -332,6 +442,21 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
     )
 
 
+def _consume_template(peekable: PeekableTextIO) -> JSToken:
+    """Consumes the part of a template literal until its end or its next
+    substitution, assuming that the current peeked character is either its start
+    or the end of a substitution.
+    """
+    res = peekable.read(1)
+    while peeked := peekable.peek(2):
+        if peeked == "${":
+            return JSToken(type=JSTokenType.template, value=res + peekable.read(2))
+        if peeked[0] == "`":
+            return JSToken(type=JSTokenType.template, value=res + peekable.read(1))
+        res += peekable.read(2 if peeked[0] == "\\" else 1)
+    return JSToken(type=JSTokenType.invalid, value=res)
+
+
 WHITESPACE_CHARACTERS = frozenset(
     "\u0009\u000B\u000C\uFEFF\u0020\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u202f\u205f\u3000"
 )
@@ -344,8 +469,7 @@ def _is_whitespace(char: str) -> bool:
 
 def _is_newline(char: str) -> bool:
     """Returns true if the given character is a newline character."""
-    # Due to the noncompliant preprocessing we can ignore carriage returns
-    return char in "\n\u2028\u2029"
+    return char in "\n\r\u2028\u2029"
 
 
 def _is_unicode_escape_sequence(nine: str) -> bool:
-- 
2.43.0


From 2683cf8b797e01e6510b36c6843b8af3c854f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 31/67] fix: version every form of static import declaration

---
 vanillaplusjs/build/js/manips/hash_imports.py | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d23cd20..a6d2a36 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -9,7 +9,17 @@ from urllib.parse import urlencode
 import os
 
 
-WHITESPACE_OR_TERM = {JSTokenType.whitespace, JSTokenType.line_terminator}
+WHITESPACE_OR_TERM = {
+    JSTokenType.whitespace,
+    JSTokenType.line_terminator,
+    JSTokenType.comment,
+}
+
+BINDING = {JSTokenType.identifier, JSTokenType.keyword_as, JSTokenType.keyword_from}
+"""The tokens which may name what is imported; as and from are not reserved"""
+
+EXPORTED_NAME = BINDING | {JSTokenType.keyword_import, JSTokenType.string_literal}
+"""The tokens which may refer to what is exported by the imported module"""
 
 
 class HashImportsManipulator(JSYieldManipulator):
@@ -44,7 +54,7 @@ class HashImportsManipulator(JSYieldManipulator):
             return self._handle_import(token["value"])
 
         expecting_from = False
-        if token["type"] == JSTokenType.identifier:
+        if token["type"] in BINDING:
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
             if token["type"] == JSTokenType.keyword_as:
                 token = yield from self._skip_types(WHITESPACE_OR_TERM)
@@ -64,7 +74,7 @@ class HashImportsManipulator(JSYieldManipulator):
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
             if token["type"] == JSTokenType.keyword_as:
                 token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] != JSTokenType.identifier:
+                if token["type"] not in BINDING:
                     return self._mark_import_bad("expected alias for asterisk")
                 token = yield from self._skip_types(WHITESPACE_OR_TERM)
                 if token["type"] == JSTokenType.comma:
@@ -79,11 +89,11 @@ class HashImportsManipulator(JSYieldManipulator):
         if not expecting_from and token["type"] == JSTokenType.open_curly_bracket:
             token = yield from self._skip_types(WHITESPACE_OR_TERM)
             while token["type"] != JSTokenType.close_curly_bracket:
-                if token["type"] == JSTokenType.identifier:
+                if token["type"] in EXPORTED_NAME:
                     token = yield from self._skip_types(WHITESPACE_OR_TERM)
                     if token["type"] == JSTokenType.keyword_as:
                         token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                        if token["type"] != JSTokenType.identifier:
+                        if token["type"] not in BINDING:
                             return self._mark_import_bad(
                                 "expected alias for named export"
                             )
@@ -115,7 +125,9 @@ class HashImportsManipulator(JSYieldManipulator):
         return self._handle_import(token["value"])
 
     def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
-        if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
+        if import_path.startswith("//") or not any(
+            import_path.startswith(prefix) for prefix in ("/", "./", "../")
+        ):
             return self._mark_import_bad("unexpected path format")
         if any(ch in import_path for ch in "?#"):
             return self._mark_import_bad("path contains invalid characters")
-- 
2.43.0


From a6828dceff92818973c2d4eaa61c43c4dbb22836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 32/67] fix: comment out only the line of a type hint, also
 when scanning

---
 vanillaplusjs/build/js/manips/type_hints.py | 24 ++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index 8d9b0ea..e5878e1 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -28,21 +28,21 @@ class TypeHintsManipulator(JSYieldManipulator):
     def handle(
         self, token: JSToken
     ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
-        if self.mode == "scan":
-            return False
-
         if self._skip_next_line:
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
 
         should_exclude_line = False
+        line_start = 0
         while token["type"] not in (JSTokenType.line_terminator, JSTokenType.eof):
-            if (
-                not should_exclude_line
-                and token["type"] == JSTokenType.comment
-                and token["value"].strip() == "@@type-hint"
-            ):
-                should_exclude_line = True
+            if token["type"] == JSTokenType.comment:
+                if token["value"].strip() == "@@type-hint":
+                    should_exclude_line = True
+                elif "\n" in token["value"]:
+                    # what follows is on another line
+                    if should_exclude_line:
+                        break
+                    line_start = 1 if self.stack is None else len(self.stack)
 
             token = yield
 
@@ -51,7 +51,11 @@ class TypeHintsManipulator(JSYieldManipulator):
             return False
 
         return [
-            JSToken(type=JSTokenType.comment, value=serialize_many(self.stack[:-1])),
+            *self.stack[:line_start],
+            JSToken(
+                type=JSTokenType.comment,
+                value=serialize_many(self.stack[line_start:-1]),
+            ),
             self.stack[-1],
         ]
 
-- 
2.43.0


From f71eafc27ebeac00ebe2fcd759842f63b963d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 33/67] fix: read regular expressions of js after spreads,
 default, break and numbers

---
 vanillaplusjs/build/js/tokenizer.py | 31 ++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index d9a2f73..4f12d93 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -116,7 +116,8 @@ def _tokenize(
 
 
 KEYWORDS_BEFORE_EXPRESSION = frozenset(
-    "await case delete do else extends in instanceof new return throw typeof void yield".split()
+    "await break case continue debugger default delete do else extends in instanceof"
+    " new return throw typeof void yield".split()
 )
 
 KEYWORDS_BEFORE_PARENTHESIS = frozenset("for if while with".split())
@@ -153,6 +154,11 @@ class _Context:
         self.adjacent = False
         """If nothing came after previous"""
 
+        self.function_value: Optional[Tuple[int, bool]] = None
+        """The number of brackets which were open at the last class or function
+        keyword whose body is still to come, and if it is an expression
+        """
+
     def in_template(self) -> bool:
         return bool(self.open_brackets) and self.open_brackets[-1][0] == "${"
 
@@ -162,6 +168,13 @@ class _Context:
             return
 
         text = serialize(token)
+        if self.adjacent and self.previous.endswith("."):
+            if text == "." and self.before_previous == ".":
+                text = "..."
+            elif text[:1].isdigit():
+                text = self.previous + text
+        elif self.adjacent and text == "." and self.previous.isdigit():
+            text = self.previous + text
         after_dot = self.previous in (".", "#")
 
         if token["type"] == JSTokenType.template:
@@ -177,7 +190,13 @@ class _Context:
             self.open_brackets.append((text, keyword in KEYWORDS_BEFORE_PARENTHESIS))
             self.regex_allowed = True
         elif text == "{":
-            self.open_brackets.append((text, not self._expects_value()))
+            is_value = self._expects_value()
+            if self.function_value and self.function_value[0] == len(
+                self.open_brackets
+            ):
+                is_value = self.function_value[1]
+                self.function_value = None
+            self.open_brackets.append((text, not is_value))
             self.regex_allowed = True
         elif text in (")", "]", "}"):
             self.regex_allowed = bool(self.open_brackets) and (
@@ -185,10 +204,16 @@ class _Context:
             )
         elif token["type"] in (JSTokenType.invalid, JSTokenType.asterisk):
             is_update = text in "+-" and self.adjacent and self.previous == text
-            self.regex_allowed = text not in (".", "#") and not is_update
+            is_number = text[:1].isdigit()
+            self.regex_allowed = not (text in (".", "#") or is_number or is_update)
         elif token["type"] in (JSTokenType.comma, JSTokenType.semicolon):
             self.regex_allowed = True
         else:
+            if text in ("class", "function") and not after_dot:
+                self.function_value = (
+                    len(self.open_brackets),
+                    self._expects_value() and self.previous != "default",
+                )
             self.regex_allowed = text in KEYWORDS_BEFORE_EXPRESSION and not after_dot
 
         self.before_previous = self.previous
-- 
2.43.0


From 8e517227b18a05795ba054a69a8c58aa51f911ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 34/67] fix: leave members named import alone

---
 vanillaplusjs/build/js/manips/hash_imports.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index a6d2a36..d9dc15e 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -21,6 +21,9 @@ BINDING = {JSTokenType.identifier, JSTokenType.keyword_as, JSTokenType.keyword_f
 EXPORTED_NAME = BINDING | {JSTokenType.keyword_import, JSTokenType.string_literal}
 """The tokens which may refer to what is exported by the imported module"""
 
+MEMBER_PREFIX = {".", "#"}
+"""What comes before the name of a member of an object, which may be import"""
+
 
 class HashImportsManipulator(JSYieldManipulator):
     def __init__(
@@ -35,6 +38,7 @@ class HashImportsManipulator(JSYieldManipulator):
         self.children: Optional[Set[str]] = set() if mode == "build" else None
 
         self.skip_next_import = False
+        self.is_member_name = False
 
     def handle(
         self, token: JSToken
@@ -43,7 +47,13 @@ class HashImportsManipulator(JSYieldManipulator):
             self.skip_next_import = True
             return False
 
-        if token["type"] != JSTokenType.keyword_import:
+        is_member_name = self.is_member_name
+        if token["type"] not in WHITESPACE_OR_TERM:
+            self.is_member_name = (
+                token["type"] == JSTokenType.invalid and token["value"] in MEMBER_PREFIX
+            )
+
+        if token["type"] != JSTokenType.keyword_import or is_member_name:
             return False
         if self.skip_next_import:
             self.skip_next_import = False
-- 
2.43.0


From 5333e2db596a85fcb8e1003616a4aefd085e588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 35/67] fix: read regular expressions which follow an import

---
 vanillaplusjs/build/js/tokenizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 4f12d93..ce32482 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -183,7 +183,10 @@ class _Context:
             self.regex_allowed = text.endswith("${")
             if self.regex_allowed:
                 self.open_brackets.append(("${", False))
-        elif token["type"] in (JSTokenType.string_literal, JSTokenType.regex):
+        elif token["type"] == JSTokenType.string_literal:
+            # nothing can be divided by the module of an import or export
+            self.regex_allowed = self.previous in ("from", "import")
+        elif token["type"] == JSTokenType.regex:
             self.regex_allowed = False
         elif text in ("(", "["):
             keyword = self.previous if self.before_previous != "." else ""
-- 
2.43.0


From a6854206078bb49e66a3113ce1878ce7cd9eeecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 36/67] fix: find type hints after empty lines

---
 vanillaplusjs/build/js/manips/type_hints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index e5878e1..c0b4cd0 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -47,7 +47,8 @@ class TypeHintsManipulator(JSYieldManipulator):
             token = yield
 
         if not should_exclude_line:
-            self._skip_next_line = True
+            # what was marked is walked again, unless the line is empty
+            self._skip_next_line = self.stack is not None
             return False
 
         return [
-- 
2.43.0


From 274bdfb610df0dd74ce927e5ba9ae7e5b4998f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 37/67] fix: escape css identifiers and units which would join
 the next token

---
 vanillaplusjs/build/css/manipulate_and_serialize.py | 7 ++++++-
 vanillaplusjs/build/css/serializer.py               | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manipulate_and_serialize.py b/vanillaplusjs/build/css/manipulate_and_serialize.py
index 3f17167..c6fcb4c 100644
--- a/vanillaplusjs/build/css/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/css/manipulate_and_serialize.py
@@ -31,7 +31,12 @@ def manipulate_and_serialize(
 
     with open(infile, "r") as f_in:
         with open(outfile, "w", newline="\n") as f_out:
+            end = ""
             for in_token in tokenize(f_in):
                 builder.handle_token(in_token)
                 for out_token in builder.consume_tokens():
-                    f_out.write(serialize(out_token))
+                    text = serialize(out_token)
+                    if end.endswith("<!") and text.startswith("--"):
+                        text = "/**/" + text  # not <!--
+                    end = (end + text)[-2:]
+                    f_out.write(text)
diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index c8995b8..04d3c25 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -104,6 +104,8 @@ def serialize_ident(value: str) -> str:
     """
     if value == "-":
         return "\\-"
+    if value == "--":
+        return "-\\-"  # would be --> if the next token is >
 
     prefix = "-" if value.startswith("-") else ""
     rest = value[len(prefix) :]
@@ -113,8 +115,9 @@ def serialize_ident(value: str) -> str:
 
 
 def serialize_unit(unit: str) -> str:
-    """Serializes the unit of a dimension, which may not look like an exponent"""
-    if re.match(r"[eE][+-]?[0-9]", unit):
+    """Serializes the unit of a dimension, which may not look like an exponent, not
+    even with the next token"""
+    if re.match(r"[eE]([+-]?[0-9]|$)", unit):
         return escape_as_code_point(unit[0]) + serialize_name(unit[1:])
     return serialize_ident(unit)
 
-- 
2.43.0


From eb80c82fbea4d2cc28187b72abaa0ceb654ef593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 38/67] fix: outline data images in every spelling as their
 decoded bytes

---
 .../build/css/manips/outline_image_data.py    | 158 +++++++++---------
 .../build/css/manips/version_urls.py          |   4 +-
 2 files changed, 78 insertions(+), 84 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index fa1636d..5ff551f 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Optional, Set
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.ioutil import makedirs_safely
@@ -6,7 +6,9 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.manipulator import CSSManipulator
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.handlers.hash as hash_handler
-from urllib.parse import unquote, urlencode
+from urllib.parse import unquote_to_bytes, urlencode
+import base64
+import binascii
 import re
 import os
 
@@ -14,10 +16,15 @@ from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
 IMAGE_DATA_REGEX = re.compile(
-    r'^data:image/(?P<image_type>[^;,]+)[;,](?P<image_data>[^"]+)$'
+    r"data:image/(?P<image_type>[a-z0-9.+-]+)(?:;[^,]*?)??(?P<base64>; *base64)?"
+    r",(?P<image_data>.+)",
+    re.IGNORECASE | re.DOTALL,
 )
 """Matches an image data source"""
 
+NEWLINE_OR_TAB_REGEX = re.compile(r"[\t\n\r]")
+"""Matches what is ignored within urls"""
+
 
 class OutlineImageDataManipulator(CSSManipulator):
     """When encountering a url function whose value is an image data source,
@@ -39,12 +46,10 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.produced: Optional[Set[str]] = set() if mode == "build" else None
         self.reused: Optional[Set[str]] = set() if mode == "build" else None
 
-        self.image_relpath_by_data: Optional[Dict[str, str]] = dict()
+        self.image_relpath_by_data: Dict[Tuple[str, bytes], str] = dict()
         self.image_counter = 0
 
-        self.skip_next_url_function = False
-        self.state: Optional[Literal["expecting_url", "expecting_string"]] = None
-        self.stack: Optional[List[CSSToken]] = None
+        self._in_url = False
 
         path_in_gen = os.path.splitext(relpath)[0]
         if path_in_gen.startswith(os.path.join("src", "public")):
@@ -55,90 +60,43 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.image_out_folder = os.path.join("out", "www", "img", "gen", path_in_gen)
 
     def start_mark(self, node: CSSToken) -> bool:
-        if node["type"] != CSSTokenType.function:
-            return False
-        if node["value"] != "url":
+        if node["type"] == CSSTokenType.function:
+            self._in_url = node["value"].lower() == "url"
             return False
-        if self.skip_next_url_function:
-            self.skip_next_url_function = False
+
+        if node["type"] == CSSTokenType.right_parens:
+            self._in_url = False
             return False
-        self.state = "expecting_url"
-        self.stack = []
-        return True
 
-    def continue_mark(self, node: CSSToken) -> Optional[List[CSSToken]]:
-        self.stack.append(node)
-
-        if self.state == "expecting_url":
-            assert (
-                node["type"] == CSSTokenType.function
-            ), "continue_mark in state expecting_url should get a function"
-            assert (
-                node["value"] == "url"
-            ), "continue_mark in state expecting_url should get a url function"
-            self.state = "expecting_string"
-            return None
+        if node["type"] != CSSTokenType.url and not (
+            self._in_url and node["type"] == CSSTokenType.string
+        ):
+            return False
 
-        assert (
-            self.state == "expecting_string"
-        ), f"continue_mark unknown state: {self.state=}"
-        if node["type"] != CSSTokenType.string:
-            self.skip_next_url_function = True
-            result = self.stack
-            self.stack = None
-            self.state = None
-            return result
-
-        match = IMAGE_DATA_REGEX.match(node["value"])
-        if match is None:
-            self.skip_next_url_function = True
-            result = self.stack
-            self.stack = None
-            self.state = None
-            return result
-
-        image_type = match.group("image_type")
-        image_data = match.group("image_data")
-        out_relpath = self.image_relpath_by_data.get(image_data)
-        need_to_create = out_relpath is None
-        if need_to_create:
-            self.image_counter += 1
-            file_ext = image_type.split("+", 1)[0]
-            out_relpath = os.path.join(
-                self.image_out_folder, f"{self.image_counter}.{file_ext}"
-            )
-            self.image_relpath_by_data[image_data] = out_relpath
-
-        result: List[CSSToken] = [
-            self.stack[0],
-            CSSToken(
-                type=CSSTokenType.string,
-                value=out_relpath[len(os.path.join("out", "www")) :].replace(
-                    os.path.sep, "/"
-                ),
-            ),
-        ]
-        self.stack = None
-        self.state = None
-        self.skip_next_url_function = True
+        image = self._decode_image(node["value"])
+        if image is None:
+            return False
 
         if self.mode == "scan":
-            if need_to_create:
+            out_relpath, is_new = self._decide_out_relpath(image)
+            if is_new:
                 self.produces.add(out_relpath)
                 hash_scan_result = hash_handler.scan_file(self.context, out_relpath)
                 self.dependencies.update(hash_scan_result.dependencies)
                 self.produces.update(hash_scan_result.produces)
-            return result
+            return False
+
+        return True
 
+    def continue_mark(self, node: CSSToken) -> Optional[List[CSSToken]]:
+        image = self._decode_image(node["value"])
+        out_relpath, is_new = self._decide_out_relpath(image)
         out_path = os.path.join(self.context.folder, out_relpath)
-        if need_to_create:
-            if os.path.lexists(out_relpath):
-                self.reused.add(out_relpath)
-            else:
-                self.produced.add(out_relpath)
-                makedirs_safely(os.path.dirname(out_path))
-                with open(out_path, "w", newline="\n") as f:
-                    f.write(unquote(image_data))
+        if is_new:
+            self.produced.add(out_relpath)
+            makedirs_safely(os.path.dirname(out_path))
+            with open(out_path, "wb") as f:
+                f.write(image[1])
 
             hash_build_result = hash_handler.build_file(self.context, out_relpath)
             self.children.update(hash_build_result.children)
@@ -148,11 +106,47 @@ class OutlineImageDataManipulator(CSSManipulator):
         with open(out_path + ".hash") as f:
             hash_value = f.read()
 
-        result[1]["value"] += "?" + urlencode(
-            {"v": hash_value, "pv": PROCESSOR_VERSION}
+        new_node = node.copy()
+        new_node["value"] = (
+            out_relpath[len(os.path.join("out", "www")) :].replace(os.path.sep, "/")
+            + "?"
+            + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
         )
+        return [new_node]
 
-        return result
+    def _decode_image(self, url: str) -> Optional[Tuple[str, bytes]]:
+        """Determines the file extension and contents of the image at the given
+        url, or None if it's not an image data source
+        """
+        match = IMAGE_DATA_REGEX.fullmatch(NEWLINE_OR_TAB_REGEX.sub("", url).strip())
+        if match is None:
+            return None
+
+        image_data = unquote_to_bytes(match.group("image_data"))
+        if match.group("base64") is not None:
+            image_data = b"".join(image_data.split()).rstrip(b"=")
+            image_data += b"=" * (-len(image_data) % 4)
+            try:
+                image_data = base64.b64decode(image_data, validate=True)
+            except binascii.Error:
+                return None
+
+        return match.group("image_type").split("+", 1)[0].lower(), image_data
+
+    def _decide_out_relpath(self, image: Tuple[str, bytes]) -> Tuple[str, bool]:
+        """Determines where the given image belongs, and if this is the first time
+        it was encountered.
+        """
+        out_relpath = self.image_relpath_by_data.get(image)
+        if out_relpath is not None:
+            return out_relpath, False
+
+        self.image_counter += 1
+        out_relpath = os.path.join(
+            self.image_out_folder, f"{self.image_counter}.{image[0]}"
+        )
+        self.image_relpath_by_data[image] = out_relpath
+        return out_relpath, True
 
     def scan_result(self) -> ScanFileResult:
         """The scan result for this manipulator"""
diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a6957c1..99895f5 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -78,10 +78,10 @@ class VersionURLsManipulator(CSSManipulator):
         return False
 
     def _decide_new_version_suffix(self, url: str) -> Optional[VersionSuffix]:
-        if not url.startswith("/"):
+        if not url.startswith("/") or url.startswith("//"):
             return None
 
-        if "?" in url:
+        if "?" in url or "#" in url:
             return None
 
         path_relative_to_public = url[1:].replace("/", os.path.sep)
-- 
2.43.0


From 44d9c9e8ea16affe28daa5b6d293b42e1a96aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 39/67] fix: version links whatever the spelling of rel, and
 leave other hosts alone

---
 vanillaplusjs/build/html/manips/link_hash.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 6117fec..adcf42a 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -64,7 +64,8 @@ class LinkRel(LinkLike):
         super().__init__("EmptyTag", "link", "href")
 
     def matches(self, node: tkn.HTMLToken) -> bool:
-        return node["data"].get((None, "rel")) in ("stylesheet", "preload")
+        rel = node["data"].get((None, "rel"), "").lower().split()
+        return "stylesheet" in rel or "preload" in rel
 
 
 LINK_TYPES = (
@@ -189,13 +190,19 @@ class LinkHash(HTMLManipulator):
         href = attributes.get((None, link_type.attr_name))
         if href is None or not href.startswith("/") or any(c in "?#" for c in href):
             return None
+        if href.startswith("//"):
+            return None
 
         return LinkDependency(
             name=node["name"],
             attr_name=link_type.attr_name,
             path=href[1:],
             attributes=dict(
-                ((key[1], val) for (key, val) in attributes.items() if key[1] != "href")
+                (
+                    (key[1], val)
+                    for (key, val) in attributes.items()
+                    if key[1] != link_type.attr_name
+                )
             ),
         )
 
-- 
2.43.0


From f999ae6a71a1e52abfa0a3f2c7bd81240d28b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 40/67] fix: only recognize comments within titles and
 textareas where html5lib does not

---
 vanillaplusjs/build/html/tokenizer.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index 654d110..60de37f 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -1,9 +1,16 @@
 import io
-from typing import Generator
+from typing import Generator, List
 from .token import HTMLToken
 import html5lib
 
 
+def is_rcdata_element(token: HTMLToken) -> bool:
+    """Determines if the given start tag opens an element whose contents are text,
+    with character references, in which comments are not recognized by browsers.
+    """
+    return token["name"] in ("title", "textarea") and not token.get("namespace")
+
+
 def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, None]:
     """Tokenizes the given file using html5lib. This will correct certain
     parsing issues with html5lib, such as it improperly missing the comment
@@ -32,20 +39,33 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
     walker = html5lib.getTreeWalker("dom")
 
     tokens = iter(walker(doc))
+    open_elements: List[HTMLToken] = []
     while True:
         try:
             token = next(tokens)
         except StopIteration:
             break
 
+        if token["type"] == "StartTag":
+            open_elements.append(token)
+        elif token["type"] == "EndTag" and open_elements:
+            open_elements.pop()
+
         # html5lib uses parseRCDataRawtext for several locations, e.g.,
         # title tags, where we really just want them handled like a normal tag.
+        # anywhere else this is not a comment, since that would have been parsed
+        # as one.
         # it's not really possible to fix this without forking html5lib, so we
         # will at least handle comments correctly
 
         # to see what we're trying to fix, try parseFragment on <title><!-- COMMENT -->Hello World</title>
 
-        if token["type"] == "Characters" and token["data"] == "<":
+        if (
+            token["type"] == "Characters"
+            and token["data"] == "<"
+            and open_elements
+            and is_rcdata_element(open_elements[-1])
+        ):
             try:
                 next_token = next(tokens)
             except StopIteration:
-- 
2.43.0


From 0e474f6f670a0738a4b974d2e9c7defeabf8f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 41/67] fix: serialize html such that it parses to the same
 document

---
 .../build/html/manipulate_and_serialize.py    | 50 +++++++++++++++++--
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/html/manipulate_and_serialize.py b/vanillaplusjs/build/html/manipulate_and_serialize.py
index d385ecc..7055aaa 100644
--- a/vanillaplusjs/build/html/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/html/manipulate_and_serialize.py
@@ -1,9 +1,11 @@
-from typing import List, Optional
+from typing import Generator, Iterable, List, Optional
 
 from vanillaplusjs.build.ioutil import makedirs_safely
 from .manipulator import HTMLManipulator
 from .builder import HTMLBuilder
-from .tokenizer import tokenize
+from .token import HTMLToken
+from .tokenizer import is_rcdata_element, tokenize
+import html
 import html5lib
 import os
 
@@ -31,12 +33,52 @@ def manipulate_and_serialize(
 
     makedirs_safely(os.path.dirname(outfile))
 
-    output_tokens = builder.consume_tokens()
+    output_tokens = prepare_tokens(builder.consume_tokens())
     serializer = html5lib.serializer.HTMLSerializer(
         omit_optional_tags=False, quote_attr_values="always"
     )
 
     with open(outfile, "wb") as f:
         for block in serializer.serialize(output_tokens, encoding="utf-8"):
-            f.write(block)
+            # they were written as character references, or they would have been
+            # normalized to line feeds
+            f.write(block.replace(b"\r", b"&#13;"))
         f.write(bytes(os.linesep, encoding="utf-8"))
+
+
+def prepare_tokens(tokens: Iterable[HTMLToken]) -> Generator[HTMLToken, None, None]:
+    """Adapts the given tokens where the html5lib serializer would otherwise produce
+    something which isn't parsed back to the same tokens.
+    """
+    open_elements: List[HTMLToken] = []
+    cdata_element: Optional[str] = None
+    drops_newline = False
+
+    for token in tokens:
+        if token["type"] == "Comment" and open_elements:
+            if is_rcdata_element(open_elements[-1]):
+                # see tokenize
+                token = HTMLToken(type="Characters", data=f"<!--{token['data']}-->")
+
+        if token["type"] in ("Characters", "SpaceCharacters"):
+            if drops_newline and token["data"].startswith("\n"):
+                token = HTMLToken(type=token["type"], data="\n" + token["data"])
+            if cdata_element == "noscript":
+                token = HTMLToken(
+                    type=token["type"], data=html.escape(token["data"], quote=False)
+                )
+
+        drops_newline = False
+        if token["type"] in ("StartTag", "EmptyTag"):
+            if token["name"] in html5lib.constants.rcdataElements:
+                cdata_element = token["name"]
+            if token["type"] == "StartTag":
+                open_elements.append(token)
+                drops_newline = token["name"] in ("pre", "listing", "textarea")
+        elif token["type"] == "EndTag":
+            if token["name"] in html5lib.constants.rcdataElements:
+                cdata_element = None
+            if open_elements:
+                open_elements.pop()
+
+        yield token
-- 
2.43.0


From 845377ceb973056c4751465acc49290aebc9bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 42/67] fix: resolve templates relative to the folder of the
 including file, and refuse cycles

---
 vanillaplusjs/build/html/manips/template.py | 47 ++++++++++++++-------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index eec09cb..db0a8e8 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 from vanillaplusjs.build.build_file_result import BuildFileResult
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
+from vanillaplusjs.build.exceptions import CyclicDependencyException
 from vanillaplusjs.build.html.manipulator import HTMLManipulator
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.html.tokenizer import tokenize
@@ -102,7 +103,9 @@ class TemplateManipulator(HTMLManipulator):
 
     def handle_stack_push(self, parsed_args: list) -> List[tkn.HTMLToken]:
         self.stack.append(self.current_frame)
-        self.current_frame = StackFrame(relpath=parsed_args[1], variables=dict())
+        self.current_frame = StackFrame(
+            relpath=self.resolve_path(parsed_args[1]), variables=dict()
+        )
         return []
 
     def handle_stack_pop(self) -> List[tkn.HTMLToken]:
@@ -134,10 +137,21 @@ class TemplateManipulator(HTMLManipulator):
         else:
             self.children.add(imp.relpath)
 
+        if any(
+            frame.relpath == imp.relpath for frame in [*self.stack, self.current_frame]
+        ):
+            raise CyclicDependencyException(
+                f"{self.relpath} includes {imp.relpath} within itself"
+            )
+
+        push_path = "/" + os.path.relpath(
+            imp.relpath, os.path.join("src", "partials")
+        ).replace(os.path.sep, "/")
+
         result = []
         result.append(
             tkn.HTMLToken(
-                type="Comment", data=f"[STACK: {json.dumps(['push', imp.relpath])}]"
+                type="Comment", data=f"[STACK: {json.dumps(['push', push_path])}]"
             )
         )
         for key, val in imp.variables.items():
@@ -204,18 +218,6 @@ class TemplateManipulator(HTMLManipulator):
 
             variables = parsed_args[1]
 
-        if command_path.startswith("/"):
-            # assume relative to src/partials
-            command_path_rel_partials = command_path[1:].replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                "src", "partials", command_path_rel_partials
-            )
-        else:
-            command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                self.current_frame.relpath, command_path_rel_current_relpath
-            )
-
         for var_key in list(variables.keys()):
             var_val = variables[var_key]
             if (
@@ -230,7 +232,22 @@ class TemplateManipulator(HTMLManipulator):
                     ]
 
         return TemplateImport(
-            relpath=command_path_rel_project_root, variables=variables
+            relpath=self.resolve_path(command_path), variables=variables
+        )
+
+    def resolve_path(self, command_path: str) -> str:
+        """Determines the path relative to the project root for the path of a
+        template or stack push command
+        """
+        if command_path.startswith("/"):
+            # assume relative to src/partials
+            folder = os.path.join("src", "partials")
+            command_path = command_path[1:]
+        else:
+            folder = os.path.dirname(self.current_frame.relpath)
+
+        return os.path.normpath(
+            os.path.join(folder, command_path.replace("/", os.path.sep))
         )
 
     def try_get_command(
-- 
2.43.0


From 757584e1cd12cb7dc9551b0b41dad4b043bf341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 43/67] fix: recognize commands in titles whatever they contain

---
 vanillaplusjs/build/html/tokenizer.py | 72 +++++++++++----------------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index 60de37f..280f45a 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -2,6 +2,7 @@ import io
 from typing import Generator, List
 from .token import HTMLToken
 import html5lib
+import re
 
 
 def is_rcdata_element(token: HTMLToken) -> bool:
@@ -40,17 +41,8 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
 
     tokens = iter(walker(doc))
     open_elements: List[HTMLToken] = []
-    while True:
-        try:
-            token = next(tokens)
-        except StopIteration:
-            break
-
-        if token["type"] == "StartTag":
-            open_elements.append(token)
-        elif token["type"] == "EndTag" and open_elements:
-            open_elements.pop()
-
+    rcdata: List[str] = []
+    for token in walker(doc):
         # html5lib uses parseRCDataRawtext for several locations, e.g.,
         # title tags, where we really just want them handled like a normal tag.
         # anywhere else this is not a comment, since that would have been parsed
@@ -60,43 +52,35 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
 
         # to see what we're trying to fix, try parseFragment on <title><!-- COMMENT -->Hello World</title>
 
+        # the text is split into an arbitrary number of tokens by html5lib, within
+        # the comment as well
         if (
-            token["type"] == "Characters"
-            and token["data"] == "<"
+            token["type"] in ("Characters", "SpaceCharacters")
             and open_elements
             and is_rcdata_element(open_elements[-1])
         ):
-            try:
-                next_token = next(tokens)
-            except StopIteration:
-                yield token
-                break
-
-            if next_token["type"] == "Characters" and next_token["data"].startswith(
-                "!--"
-            ):
-                data: str = next_token["data"]
-                try:
-                    close_comment_idx = data.index("-->")
-                except ValueError:
-                    yield token
-                    yield next_token
-                    continue
-
-                yield HTMLToken(
-                    type="Comment",
-                    data=data[3:close_comment_idx],
-                )
-                remainder = data[close_comment_idx + 3 :]
-                if remainder:
-                    yield HTMLToken(
-                        type="Characters",
-                        data=remainder,
-                    )
-                continue
-
-            yield token
-            yield next_token
+            rcdata.append(token["data"])
             continue
 
+        if rcdata:
+            yield from tokenize_rcdata("".join(rcdata))
+            rcdata = []
+
+        if token["type"] == "StartTag":
+            open_elements.append(token)
+        elif token["type"] == "EndTag" and open_elements:
+            open_elements.pop()
+
         yield token
+
+
+def tokenize_rcdata(data: str) -> Generator[HTMLToken, None, None]:
+    """Splits the text contents of a title or textarea into comments and text"""
+    pos = 0
+    for match in re.finditer(r"<!--(.*?)-->", data, re.DOTALL):
+        if match.start() > pos:
+            yield HTMLToken(type="Characters", data=data[pos : match.start()])
+        yield HTMLToken(type="Comment", data=match.group(1))
+        pos = match.end()
+    if pos < len(data):
+        yield HTMLToken(type="Characters", data=data[pos:])
-- 
2.43.0


From ee540808907e507b60102eaa5d7aaf92319a985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 44/67] fix: rebuild the js constants when their configuration
 changes

---
 .../build/hot_incremental_rebuild.py          | 62 ++++++++++++++-----
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 26540dd..29b7813 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Optional, Set, Tuple
+from typing import Dict, List, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -12,6 +12,8 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from .graph import FileDependencyGraph
 from loguru import logger
 import concurrent.futures
+import hashlib
+import json
 import os
 import asyncio
 import shutil
@@ -117,18 +119,19 @@ async def hot_incremental_rebuild(
                 else:
                     os.unlink(path)
 
-    new_constants_mode: Optional[Literal["dev", "prod"]] = None
-    if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
-        current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
-        old_constants_mode = None
-        try:
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "r"
-            ) as f:
-                old_constants_mode = f.read()
-        except FileNotFoundError:
-            pass
+    old_constants_mode: Optional[str] = None
+    new_constants_mode: Optional[str] = None
+    try:
+        with open(os.path.join(context.out_folder, "js_constants_mode.txt"), "r") as f:
+            old_constants_mode = f.read()
+    except FileNotFoundError:
+        pass
 
+    constants_exist = os.path.exists(
+        os.path.join(context.folder, context.js_constants.relpath)
+    )
+    if constants_exist:
+        current_mode = describe_js_constants(context)
         if old_constants_mode != current_mode:
             new_constants_mode = current_mode
             if (context.js_constants.relpath not in changed_files) and (
@@ -140,11 +143,20 @@ async def hot_incremental_rebuild(
                 changed_files[context.js_constants.relpath] = get_file_signature(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
-    else:
-        try:
-            os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
-        except FileNotFoundError:
-            pass
+
+    if old_constants_mode is not None:
+        # the file which used to contain the constants is now a regular file
+        old_constants_relpath = old_constants_mode.partition("\n")[2].partition("\n")[0]
+        if (
+            old_constants_relpath
+            and old_constants_relpath != context.js_constants.relpath
+            and old_constants_relpath not in changed_files
+            and old_constants_relpath not in added_files
+            and os.path.exists(os.path.join(context.folder, old_constants_relpath))
+        ):
+            changed_files[old_constants_relpath] = get_file_signature(
+                os.path.join(context.folder, old_constants_relpath)
+            )
 
     if not changed_files and not added_files and not deleted_files:
         logger.info("Nothing to do, exiting")
@@ -666,6 +678,8 @@ async def hot_incremental_rebuild(
                 os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
             ) as f:
                 f.write(new_constants_mode)
+        elif old_constants_mode is not None and not constants_exist:
+            os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
 
         os.unlink(context.unfinished_build_file)
 
@@ -673,6 +687,20 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def describe_js_constants(context: BuildContext) -> str:
+    """Describes what the file containing the js constants is built from: the mode,
+    the path of the file, and the constants, each on their own line.
+    """
+    constants = context.js_constants.shared.copy()
+    constants.update(
+        context.js_constants.dev if context.dev else context.js_constants.prod
+    )
+    digest = hashlib.sha256(json.dumps(constants).encode("utf-8")).hexdigest()
+    return "\n".join(
+        ["dev" if context.dev else "prod", context.js_constants.relpath, digest]
+    )
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
-- 
2.43.0


From 354eaecb3e283e7b1002bc6b5c4345df84577c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 45/67] fix: resolve css imports whatever surrounds and spells
 the imported rules

---
 vanillaplusjs/build/css/manips/nest.py | 146 ++++++++++++++++++-------
 1 file changed, 105 insertions(+), 41 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index a9143a8..9759f38 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -1,7 +1,7 @@
 from multiprocessing.sharedctypes import Value
 from xml.etree.ElementTree import Comment
 from vanillaplusjs.build.css.manipulator import CSSManipulator
-from typing import Dict, List, Literal, Optional, Set, Generator
+from typing import Dict, Iterable, List, Literal, Optional, Set, Generator
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.css.tokenizer import tokenize_and_close
@@ -9,6 +9,7 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.css.serializer
 from dataclasses import dataclass
+import io
 import re
 import os
 from loguru import logger
@@ -213,12 +214,56 @@ class ReferencableRules:
                     )
 
 
+# Regex that matches [selector] FROM [path]
+FROM_ARGS_RULE = re.compile(
+    r"^(?P<selector>.*)\sFROM\s+(?P<path>.*)$", re.IGNORECASE | re.DOTALL
+)
+
 # Regex that matches !PREPROCESSOR: import [args]
 PREPROCESSOR_IMPORT_ACTION_RULE = re.compile(
     r"^\s*!\s*PREPROCESSOR\s*:\s+import\s+(?P<args>.*)\s*$"
 )
 
 
+def serialize_prelude(prelude: Iterable[CSSToken]) -> str:
+    """Serializes the given prelude such that the result does not depend on how
+    it was written, e.g., the quotes around strings.
+    """
+    tokens: List[CSSToken] = []
+    for token in prelude:
+        if token["type"] in (CSSTokenType.comment, CSSTokenType.eof):
+            continue
+        if token["type"] == CSSTokenType.whitespace:
+            token = CSSToken(type=CSSTokenType.whitespace, value=" ")
+            if tokens and tokens[-1]["type"] == CSSTokenType.whitespace:
+                continue
+        tokens.append(token)
+    return vanillaplusjs.build.css.serializer.serialize_many(tokens).strip()
+
+
+def separate_declarations(
+    last_node: Optional[CSSToken], block: List[CSSToken]
+) -> List[CSSToken]:
+    """Adds the semicolons to the given block which are required to put it after
+    the given node and before more declarations.
+    """
+    nodes = [
+        node
+        for node in block
+        if node["type"] not in (CSSTokenType.whitespace, CSSTokenType.comment)
+    ]
+    result = list(block)
+    separator = CSSToken(type=CSSTokenType.semicolon)
+    if nodes and nodes[-1]["type"] != CSSTokenType.semicolon:
+        result.append(separator)
+    if last_node is not None and last_node["type"] not in (
+        CSSTokenType.semicolon,
+        CSSTokenType.left_curly_bracket,
+    ):
+        result.insert(0, separator)
+    return result
+
+
 class NestManipulator(CSSManipulator):
     """Allows simple CSS nesting via importing another style into a given
     style.
@@ -331,7 +376,13 @@ class NestManipulator(CSSManipulator):
         resume importing from that file.
         """
 
+        self.last_node: Optional[CSSToken] = None
+        """The last node which isn't whitespace or a comment"""
+
     def start_mark(self, node: CSSToken) -> bool:
+        if node["type"] not in (CSSTokenType.whitespace, CSSTokenType.comment):
+            self.last_node = node
+
         if node["type"] == CSSTokenType.eof:
             if self.mode == "build":
                 for gen in self.resumable_imports.values():
@@ -364,14 +415,11 @@ class NestManipulator(CSSManipulator):
 
         args = match.group("args")
         args = args.strip()
-        try:
-            from_index = args.lower().index("from")
-        except ValueError:
-            from_index = None
+        from_match = FROM_ARGS_RULE.match(args)
 
         import_relpath = None
-        if from_index is not None:
-            from_arg = args[from_index + 4 :].strip()
+        if from_match is not None:
+            from_arg = from_match.group("path").strip()
             if not from_arg.startswith("/") or " " in from_arg:
                 # parse error
                 return
@@ -384,17 +432,21 @@ class NestManipulator(CSSManipulator):
         else:
             import_relpath = self.context.default_css_file.replace("/", os.path.sep)
 
-        import_prelude = (
-            args.strip() if from_index is None else args[:from_index].strip()
+        import_prelude = args if from_match is None else from_match.group("selector")
+        return QualifiedRuleReference(
+            import_relpath,
+            serialize_prelude(tokenize_and_close(io.StringIO(import_prelude))),
         )
-        return QualifiedRuleReference(import_relpath, import_prelude)
 
     def continue_mark(self, node: CSSToken) -> Optional[List[CSSToken]]:
         imp = self._get_import(node)
         assert imp is not None, "continuing mark on non-import node"
 
         self._ensure_resolved(imp)
-        return self.referencable_rules.available_rules[imp].simple_block
+        return separate_declarations(
+            self.last_node,
+            self.referencable_rules.available_rules[imp].simple_block,
+        )
 
     def _ensure_resolved(self, imp: QualifiedRuleReference) -> None:
         """Does whatever is necessary to resolve the given import, if it
@@ -474,19 +526,18 @@ class NestManipulator(CSSManipulator):
             if token["type"] == CSSTokenType.eof:
                 raise ValueError(f"{imp=}")
 
-            if token["type"] == CSSTokenType.cdo:
-                while token["type"] != CSSTokenType.cdc:
-                    token = next(generator)
-                    if token["type"] == CSSTokenType.eof:
-                        raise ValueError(f"{imp=}")
+            if token["type"] in (CSSTokenType.cdo, CSSTokenType.cdc):
                 continue
 
             if token["type"] == CSSTokenType.at_keyword:
-                while token["type"] != CSSTokenType.left_curly_bracket:
+                while token["type"] not in (
+                    CSSTokenType.left_curly_bracket,
+                    CSSTokenType.semicolon,
+                ):
                     token = next(generator)
                     if token["type"] == CSSTokenType.eof:
                         raise ValueError(f"{imp=}")
-                nest_level = 1
+                nest_level = 0 if token["type"] == CSSTokenType.semicolon else 1
                 while nest_level > 0:
                     token = next(generator)
                     if token["type"] == CSSTokenType.eof:
@@ -522,11 +573,11 @@ class NestManipulator(CSSManipulator):
                     break
                 prelude.append(token)
 
-            serialized_prelude = vanillaplusjs.build.css.serializer.serialize_many(
-                prelude
-            ).strip()
+            serialized_prelude = serialize_prelude(prelude)
 
+            nest_level = 0
             stack: List[CSSToken] = []
+            last_node: Optional[CSSToken] = None
             value: List[CSSToken] = []
             missing_references: Set[QualifiedRuleReference] = set()
 
@@ -536,11 +587,17 @@ class NestManipulator(CSSManipulator):
                     continue
 
                 if (nested_import := self._get_import(token)) is not None:
+                    if nested_import.relpath != self.relpath:
+                        self._ensure_resolved(nested_import)
+
                     if nested_import in self.referencable_rules.available_rules:
                         stack = (
-                            self.referencable_rules.available_rules[
-                                nested_import
-                            ].simple_block
+                            separate_declarations(
+                                last_node,
+                                self.referencable_rules.available_rules[
+                                    nested_import
+                                ].simple_block,
+                            )
                             + stack
                         )
                     else:
@@ -552,28 +609,30 @@ class NestManipulator(CSSManipulator):
                     raise ValueError(f"{imp=}")
 
                 if token["type"] == CSSTokenType.left_curly_bracket:
-                    # parse error, maybe something else will clean it up
-                    value.append(token)
-                    nest_level = 1
-                    while nest_level > 0:
-                        token = next(generator)
-                        if token["type"] == CSSTokenType.eof:
-                            raise ValueError(f"{imp=}")
-                        value.append(token)
-                        if token["type"] == CSSTokenType.left_curly_bracket:
-                            nest_level += 1
-                        elif token["type"] == CSSTokenType.right_curly_bracket:
-                            nest_level -= 1
-                    continue
-
-                if token["type"] == CSSTokenType.right_curly_bracket:
-                    break
+                    nest_level += 1
+                elif token["type"] == CSSTokenType.right_curly_bracket:
+                    if nest_level == 0:
+                        break
+                    nest_level -= 1
 
                 value.append(token)
+                if token["type"] not in (
+                    CSSTokenType.whitespace,
+                    CSSTokenType.comment,
+                ):
+                    last_node = token
 
             while value and value[-1]["type"] == CSSTokenType.whitespace:
                 value.pop()
 
+            reference = QualifiedRuleReference(imp.relpath, serialized_prelude)
+            if (
+                reference in self.referencable_rules.available_rules
+                or reference in self.referencable_rules.unresolved_rules
+            ):
+                # the first rule with a given prelude is the one imported
+                continue
+
             self.referencable_rules.set_rule(
                 imp.relpath,
                 serialized_prelude,
@@ -596,16 +655,21 @@ class NestManipulator(CSSManipulator):
         """Resolves the given rule."""
         unresolved_rule = self.referencable_rules.unresolved_rules[rule]
         new_nodes = []
+        last_node: Optional[CSSToken] = None
         stack = list(unresolved_rule.rule.simple_block)
         while stack:
             node = stack.pop(0)
             imp = self._get_import(node)
             if imp is None:
                 new_nodes.append(node)
+                if node["type"] not in (CSSTokenType.whitespace, CSSTokenType.comment):
+                    last_node = node
                 continue
 
             referenced_rule = self.referencable_rules.available_rules[imp]
-            stack = referenced_rule.simple_block + stack
+            stack = (
+                separate_declarations(last_node, referenced_rule.simple_block) + stack
+            )
 
         resolved_rule = QualifiedRule(
             tokenized_prelude=unresolved_rule.rule.tokenized_prelude,
-- 
2.43.0


From 076315a02741dc3c99c2220b7d6d88f8066e6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 46/67] fix: produce the icons which only buttons refer to

---
 vanillaplusjs/build/css/manips/icons/command.py | 16 ++++++++++++++++
 vanillaplusjs/build/css/manips/icons/manip.py   |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/command.py b/vanillaplusjs/build/css/manips/icons/command.py
index afae37a..c08eca2 100644
--- a/vanillaplusjs/build/css/manips/icons/command.py
+++ b/vanillaplusjs/build/css/manips/icons/command.py
@@ -41,6 +41,22 @@ class IconCommand:
         """The location of the output icon folder relative to the project root"""
         return os.path.join("out", "www", "img", "icons", self.icon_name)
 
+    @property
+    def file_colors(self) -> List[str]:
+        """The colors for which there is a file: those to output, and those which
+        are used by the buttons. Requires that the command is augmented.
+        """
+        colors = list(self.output_colors)
+        if self.button is not None:
+            buttons = [*self.button.button_by_identifier.values()]
+            if self.button.default_button is not None:
+                buttons.append(self.button.default_button)
+            for button in buttons:
+                colors.extend(
+                    [button.active_color, button.hover_color, button.disabled_color]
+                )
+        return list(dict((color, None) for color in colors))  # dict to preserve order
+
     def web_path_to(self, color: str) -> str:
         """Returns the path part of the URL for this icon in the given color"""
         return f"/img/icons/{self.icon_name}/{color}.svg"
diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 6f764b4..17130ca 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -92,7 +92,7 @@ class IconManipulator(CSSManipulator):
         svg = None
         og_color = None
 
-        for color in args.output_colors:
+        for color in args.file_colors:
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
@@ -591,7 +591,7 @@ class IconManipulator(CSSManipulator):
         """
         self.dependencies.add(args.input_icon)
 
-        for color in args.output_colors:
+        for color in args.file_colors:
             self.produces.add(os.path.join(args.output_icon_folder, color + ".svg"))
 
             # these are oging to come from the version_urls manipulator, but if we don't add them
-- 
2.43.0


From ae9d057696b2f98f813ce637ee9f752e03af000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 47/67] fix: complete every spelling of canonical urls

---
 .../build/html/manips/link_rel_canonical.py   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_rel_canonical.py b/vanillaplusjs/build/html/manips/link_rel_canonical.py
index 5abd0ca..c28a02e 100644
--- a/vanillaplusjs/build/html/manips/link_rel_canonical.py
+++ b/vanillaplusjs/build/html/manips/link_rel_canonical.py
@@ -5,12 +5,16 @@ from vanillaplusjs.build.html.manipulator import HTMLManipulator
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
+import re
+from urllib.parse import quote
 from dataclasses import dataclass
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 
 PUBLIC_PREFIX_LENGTH = len(os.path.join("src", "public")) + len(os.path.sep)
 
+ABSOLUTE_URL = re.compile(r"\s*([a-zA-Z][a-zA-Z0-9+.-]*:|//)")
+
 
 @dataclass
 class TagToReplace:
@@ -73,13 +77,14 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
         tag = self.try_get_tag(node)
 
         href = node["data"].get((None, tag.attr))
-        new_href = None
         if href is None:
             path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
-            path = path_relative_to_public.replace(os.path.sep, "/")
-            new_href = f"https://{host}/{path}"
-        else:
-            new_href = f"https://{host}{href}"
+            href = quote(path_relative_to_public.replace(os.path.sep, "/"))
+
+        href = href.strip()
+        if href and not href.startswith("/"):
+            href = "/" + href
+        new_href = f"https://{host}{href}"
 
         new_tags = tag.other_tags.copy()
         new_tags[tag.attr] = new_href
@@ -93,7 +98,7 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
             return None
 
         href = node["data"].get((None, tag.attr))
-        if href is not None and href.startswith("http"):
+        if href is not None and ABSOLUTE_URL.match(href) is not None:
             return None
 
         tag.other_tags = dict(
@@ -106,8 +111,8 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
             return None
 
         if node["name"] == "link":
-            rel = node["data"].get((None, "rel"))
-            if rel == "canonical":
+            rel = node["data"].get((None, "rel"), "")
+            if "canonical" in rel.lower().split():
                 return TagToReplace(
                     name="link",
                     attr="href",
@@ -116,8 +121,8 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
             return None
 
         if node["name"] == "meta":
-            property = node["data"].get((None, "property"))
-            if property == "og:url":
+            property = node["data"].get((None, "property"), "")
+            if "og:url" in property.lower().split():
                 return TagToReplace(
                     name="meta",
                     attr="content",
-- 
2.43.0


From 37d1b2475839a693b90540c5b895f1f56f18479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 48/67] fix: leave styles and scripts of svg and math content
 in place

---
 vanillaplusjs/build/html/manips/outline.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 9d3539a..8da0149 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -7,6 +7,7 @@ from vanillaplusjs.build.handlers.handler import Handler
 import os
 import io
 import tempfile
+from html5lib.constants import namespaces
 from urllib.parse import urlencode
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
@@ -225,12 +226,23 @@ class OutlineManipulator(HTMLManipulator):
         return (
             node["type"] == "StartTag"
             and node["name"] == "script"
+            and self._is_html(node)
             and (None, "src") not in node["data"]
             and node["data"].get((None, "type"), "").strip().lower() in JS_SCRIPT_TYPES
         )
 
     def _should_outline_style(self, node: tkn.HTMLToken) -> bool:
-        return node["type"] == "StartTag" and node["name"] == "style"
+        return (
+            node["type"] == "StartTag"
+            and node["name"] == "style"
+            and self._is_html(node)
+        )
+
+    def _is_html(self, node: tkn.HTMLToken) -> bool:
+        """Within an svg or math element neither a link nor the src of a script has
+        any effect, so their styles and scripts have to stay in the document.
+        """
+        return node.get("namespace") in (None, namespaces["html"])
 
     def scan_result(self) -> ScanFileResult:
         return ScanFileResult(
-- 
2.43.0


From b21a46d0d5d7ad0f2dfdf6db13019efc7da3b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 49/67] fix: only publish what is below the public folder

---
 vanillaplusjs/build/handlers/copy.py              | 4 ++--
 vanillaplusjs/build/handlers/css.py               | 6 ++++++
 vanillaplusjs/build/handlers/image_glue.py        | 2 +-
 vanillaplusjs/build/handlers/js.py                | 6 ++++++
 vanillaplusjs/build/html/manips/images/command.py | 2 +-
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/handlers/copy.py b/vanillaplusjs/build/handlers/copy.py
index 88f1ff3..cf749ed 100644
--- a/vanillaplusjs/build/handlers/copy.py
+++ b/vanillaplusjs/build/handlers/copy.py
@@ -16,10 +16,10 @@ def get_target_path(context: BuildContext, relpath: str) -> Optional[str]:
     """
     # A lot of the path related functions here are shockingly slow, hence
     # this is a bit of a hack to make scanning faster
-    rel_public_folder = f"src{os.path.sep}public"
+    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
     if not relpath.startswith(rel_public_folder):
         return None
-    relative_to_public_folder = relpath[len(rel_public_folder) + len(os.path.sep) :]
+    relative_to_public_folder = relpath[len(rel_public_folder) :]
     return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
 
 
diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 032646b..ab7404f 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -43,6 +43,10 @@ def scan_file(
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -73,6 +77,8 @@ def build_file(
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a2a0cb0..65d113f 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -117,7 +117,7 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     Returns:
         bool: True if this handler wants to handle the file, false otherwise
     """
-    return relpath.startswith(os.path.join("src", "public")) and (
+    return relpath.startswith(os.path.join("src", "public", "")) and (
         relpath.endswith(".images.json") or relpath.endswith(".images.js")
     )
 
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index b2608e1..1fd4839 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -37,6 +37,10 @@ def scan_file(
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -67,6 +71,8 @@ def build_file(
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e9ff9f6..c977bf1 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -178,7 +178,7 @@ def validate_command(
     path_relative_to_root = command.source_path_relative_to_root(
         context, command_file_path
     )
-    if not path_relative_to_root.startswith(os.path.join("src", "public")):
+    if not path_relative_to_root.startswith(os.path.join("src", "public", "")):
         return False
 
     try:
-- 
2.43.0


From 227d0b1d6052531e66bbb913dd39dc23262d201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 50/67] fix: allow folders to be replaced by files of the same
 name

---
 .../build/hot_incremental_rebuild.py          | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 29b7813..e318b78 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -333,6 +333,9 @@ async def hot_incremental_rebuild(
                     file,
                 )
 
+        # a folder may be replaced by a file of the same name
+        clean_empty_folders(context, possibly_empty_folders)
+
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
@@ -520,16 +523,7 @@ async def hot_incremental_rebuild(
             except FileNotFoundError:
                 pass
 
-        for folder_relpath in sorted(possibly_empty_folders, key=lambda s: -len(s)):
-            folder = os.path.join(context.folder, folder_relpath)
-            if not os.path.isdir(folder):
-                continue
-            scandir_iter = os.scandir(folder)
-            has_any_contents = next(scandir_iter, None) is not None
-            scandir_iter.close()
-            if not has_any_contents:
-                logger.debug("Cleaning empty folder {}", folder_relpath)
-                os.rmdir(folder)
+        clean_empty_folders(context, possibly_empty_folders)
 
         new_dependency_graph = FileDependencyGraph()
         new_output_graph = FileDependencyGraph()
@@ -701,6 +695,21 @@ def describe_js_constants(context: BuildContext) -> str:
     )
 
 
+def clean_empty_folders(context: BuildContext, folders: Set[str]) -> None:
+    """Removes those of the given folders, relative to the root of the project, which
+    do not contain anything but other removed folders.
+    """
+    for folder_relpath in sorted(folders, key=lambda s: -len(s)):
+        folder = os.path.join(context.folder, folder_relpath)
+        if not os.path.isdir(folder):
+            continue
+        with os.scandir(folder) as scandir_iter:
+            has_any_contents = next(scandir_iter, None) is not None
+        if not has_any_contents:
+            logger.debug("Cleaning empty folder {}", folder_relpath)
+            os.rmdir(folder)
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
-- 
2.43.0


From c3d701e92897cf227a70b1f4b7cdbbadfa979f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 51/67] fix: fail rather than skip images which cannot be used

---
 vanillaplusjs/build/handlers/image_glue.py      | 4 ++--
 vanillaplusjs/build/html/manips/images/manip.py | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 65d113f..054aa29 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -133,7 +133,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return ScanFileResult(dependencies=[], produces=[])
+        raise ValueError(f"{relpath} is not a valid images json file")
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -188,7 +188,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return BuildFileResult(children=[], produced=[], reused=[])
+        raise ValueError(f"{relpath} is not a valid images json file")
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index b4aca92..8de53e2 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -132,7 +132,12 @@ class ImagesManipulator(HTMLManipulator):
         if not validate_command(
             cmd, self.context, os.path.join(self.context.folder, self.relpath)
         ):
-            return None
+            # Leaving it as a comment would mean that adding the image later has no
+            # effect, as the page doesn't depend on the image
+            raise ValueError(
+                f"{self.relpath} uses {cmd.path} at {cmd.width}x{cmd.height}, which is "
+                "not an image of at least that size in the public folder"
+            )
 
         return cmd
 
-- 
2.43.0


From 26b23fc61ebf20eb718d755264b59241b3679b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 52/67] fix: do not reuse image targets which lack files

---
 vanillaplusjs/build/html/manips/images/metadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 37ca1c3..c978fe8 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -311,6 +311,13 @@ def _get_target(
                     contents_hash,
                 )
                 continue
+            if not all(
+                os.path.exists(os.path.join(context.artifacts_folder, output.relpath))
+                for outputs in entry_metadata.target.outputs.values()
+                for output in outputs
+            ):
+                logger.debug("{} is not complete", entry.path)
+                continue
             if entry_metadata.target.settings != target:
                 logger.debug(
                     "{} is not a match for {}; the target settings are {} but should be {}",
-- 
2.43.0


From 42ff9b4545375475e10fd688aee77f0ad7606124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 53/67] fix: consider placeholders when recovering from an
 unfinished build

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index e318b78..2c65671 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -97,7 +97,9 @@ async def hot_incremental_rebuild(
         # outputs, so we cannot trust any of them.
         logger.info("The last build did not finish, rebuilding everything")
         for file in itertools.chain(
-            old_dependency_graph.nodes.keys(), old_output_graph.nodes.keys()
+            old_dependency_graph.nodes.keys(),
+            old_output_graph.nodes.keys(),
+            old_placeholders_graph.nodes.keys(),
         ):
             if file.startswith(("out" + os.path.sep, "artifacts" + os.path.sep)):
                 continue
-- 
2.43.0


From a848f70d3553d168be3647a2bac46c5ca7b848c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 54/67] fix: export each size of an image once

---
 vanillaplusjs/build/html/manips/images/resolutions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/resolutions.py b/vanillaplusjs/build/html/manips/images/resolutions.py
index c66390e..14a01f4 100644
--- a/vanillaplusjs/build/html/manips/images/resolutions.py
+++ b/vanillaplusjs/build/html/manips/images/resolutions.py
@@ -50,8 +50,15 @@ def yield_sizes(
     """Analogous to yield_resolutions, but yields the sizes to export
     an image of the given source size targetting the given destination
     size, instead of the multiple of the base resolution.
+
+    Each size is only yielded once; consecutive resolutions may be too close
+    together to be different sizes.
     """
+    previous_size = None
     for resolution in yield_resolutions(
         context, src_width, src_height, dst_width, dst_height
     ):
-        yield int(dst_width * resolution), int(dst_height * resolution)
+        size = (int(dst_width * resolution), int(dst_height * resolution))
+        if size != previous_size:
+            yield size
+            previous_size = size
-- 
2.43.0


From ef644c456a92a7aab83dbb0cd7ad7820daea2446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 55/67] fix: never enlarge images whose borders are cropped,
 and validate crop arguments

---
 vanillaplusjs/build/handlers/image_glue.py    |  95 ++++------------
 .../build/html/manips/images/command.py       | 106 ++++++++++++------
 .../build/html/manips/images/exporter.py      |   7 +-
 .../build/html/manips/images/scanner.py       |  12 +-
 4 files changed, 104 insertions(+), 116 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 054aa29..346cb59 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -78,12 +78,14 @@ import dataclasses
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.html.manips.images.command import ImageCommand
+from vanillaplusjs.build.html.manips.images.command import (
+    ImageCommand,
+    validate_command,
+)
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 import os
 import json
-from PIL import Image, UnidentifiedImageError
 from vanillaplusjs.build.html.manips.images.scanner import scan_command
 from vanillaplusjs.build.html.manips.images.exporter import export_command
 import vanillaplusjs.build.handlers.hash as hash_handler
@@ -287,89 +289,30 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             logger.warning("[{}] path is not absolute", ctx())
             return False
 
-        path_rel_to_public = path[1:]
-        path_rel_to_root = os.path.join("src", "public", path_rel_to_public)
-        if not os.path.exists(os.path.join(context.folder, path_rel_to_root)):
-            logger.warning("[{}] path {} does not exist", ctx(), path_rel_to_root)
-            return False
-
-        try:
-            img = Image.open(os.path.join(context.folder, path_rel_to_root))
-            img_width = img.width
-            img_height = img.height
-            img.close()
-        except UnidentifiedImageError:
-            logger.warning("[{}] path is not an image", ctx())
-            return False
-
-        width = img_target_settings.get("width")
-        if not isinstance(width, int) or width <= 0 or width > img_width:
-            logger.warning("[{}] width is not an integer or is out of range", ctx())
-            return False
-
-        height = img_target_settings.get("height")
-        if not isinstance(height, int) or height <= 0 or height > img_height:
-            logger.warning("[{}] height is not an integer or is out of range", ctx())
-            return False
-
         if img_target_settings.get("crop_style", "cover") != "cover":
             logger.warning("[{}] crop style is not cover", ctx())
             return False
 
-        crop_settings = img_target_settings.get("crop_settings", dict())
-        if not isinstance(crop_settings, dict):
-            logger.warning("[{}] crop settings are not a dictionary", ctx())
-            return False
-
-        valid_keys = {
-            "pre_top_crop",
-            "pre_left_crop",
-            "pre_right_crop",
-            "pre_bottom_crop",
-            "crop_left_percentage",
-            "crop_top_percentage",
-        }
-        if any(key not in valid_keys for key in crop_settings):
-            logger.warning("[{}] crop settings contain invalid keys", ctx())
+        crop_arguments = img_target_settings.get("crop_arguments", dict())
+        if not isinstance(crop_arguments, dict):
+            logger.warning("[{}] crop arguments are not a dictionary", ctx())
             return False
 
-        for key in (
-            "pre_top_crop",
-            "pre_left_crop",
-            "pre_right_crop",
-            "pre_bottom_crop",
-        ):
-            if crop_settings.get(key, 0) < 0:
-                logger.warning("[{}] crop setting {} is negative", ctx(), key)
-                return False
-
-        if not (0 <= crop_settings.get("crop_left_percentage", 0.5) <= 1):
-            logger.warning(
-                "[{}] crop setting crop_left_percentage is out of range", ctx()
-            )
-            return False
-        if not (0 <= crop_settings.get("crop_top_percentage", 0.5) <= 1):
-            logger.warning(
-                "[{}] crop setting crop_top_percentage is out of range", ctx()
-            )
-            return False
-
-        post_cropped_img_width = (
-            img_width
-            - crop_settings.get("pre_left_crop", 0)
-            - crop_settings.get("pre_right_crop", 0)
-        )
-        post_cropped_img_height = (
-            img_height
-            - crop_settings.get("pre_top_crop", 0)
-            - crop_settings.get("pre_bottom_crop", 0)
+        command = ImageCommand(
+            path=path,
+            width=img_target_settings.get("width"),
+            height=img_target_settings.get("height"),
+            crop_style="cover",
+            crop_arguments=crop_arguments,
+            lazy=True,
         )
-        if post_cropped_img_width < width or post_cropped_img_height < height:
+        if not validate_command(
+            command, context, os.path.join(context.folder, relpath)
+        ):
             logger.warning(
-                "[{}] crop settings result in an image that is too small ({}x{})",
+                "[{}] {} does not contain an image of at least the requested size",
                 ctx(),
-                post_cropped_img_width,
-                post_cropped_img_height,
+                path,
             )
             return False
 
diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index c977bf1..bfebc46 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -1,8 +1,6 @@
 from dataclasses import dataclass
 from typing import Literal
 from vanillaplusjs.build.build_context import BuildContext
-from vanillaplusjs.build.ioutil import PeekableTextIO
-import io
 import json
 import os
 from PIL import Image, UnidentifiedImageError
@@ -10,6 +8,14 @@ from PIL import Image, UnidentifiedImageError
 
 Image.MAX_IMAGE_PIXELS = 1_000_000_000
 
+PRE_CROP_ARGUMENTS = frozenset(
+    ("pre_top_crop", "pre_left_crop", "pre_bottom_crop", "pre_right_crop")
+)
+"""The crop arguments which are a number of pixels to remove"""
+
+PERCENTAGE_ARGUMENTS = frozenset(("crop_left_percentage", "crop_top_percentage"))
+"""The crop arguments which are a number from 0 to 1"""
+
 
 @dataclass
 class ImageCommand:
@@ -51,8 +57,10 @@ class ImageCommand:
         of the project.
         """
         if self.path.startswith("/"):
-            return os.path.join(
-                "src", "public", self.path[1:].replace("/", os.path.sep)
+            return os.path.normpath(
+                os.path.join("src", "public")
+                + os.path.sep
+                + self.path.replace("/", os.path.sep)
             )
 
         abs_path = os.path.abspath(
@@ -62,6 +70,44 @@ class ImageCommand:
         )
         return os.path.relpath(abs_path, context.folder)
 
+    def size_after_pre_crops(self, image_width: int, image_height: int) -> tuple:
+        """Determines the (width, height) which is left of an image of the
+        given size when the minimum crops are removed from it.
+        """
+        return (
+            image_width
+            - self.crop_arguments.get("pre_left_crop", 0)
+            - self.crop_arguments.get("pre_right_crop", 0),
+            image_height
+            - self.crop_arguments.get("pre_top_crop", 0)
+            - self.crop_arguments.get("pre_bottom_crop", 0),
+        )
+
+    def fits_image(self, image_width: int, image_height: int) -> bool:
+        """Determines if this asks for a part of an image of the given size
+        which does not have to be enlarged.
+        """
+        for size in (self.width, self.height):
+            if not isinstance(size, int) or isinstance(size, bool) or size <= 0:
+                return False
+
+        for key, value in self.crop_arguments.items():
+            if isinstance(value, bool):
+                return False
+            if key in PRE_CROP_ARGUMENTS:
+                if not isinstance(value, int) or value < 0:
+                    return False
+            elif key in PERCENTAGE_ARGUMENTS:
+                if not isinstance(value, (int, float)) or not (0 <= value <= 1):
+                    return False
+            else:
+                return False
+
+        usable_width, usable_height = self.size_after_pre_crops(
+            image_width, image_height
+        )
+        return self.width <= usable_width and self.height <= usable_height
+
 
 def parse_command(args: str) -> ImageCommand:
     """Parses the given arguments as a command string, if it is valid.
@@ -127,40 +173,30 @@ def parse_command(args: str) -> ImageCommand:
             raise ValueError(f"unsupported crop style: {repr(crop_style)}")
 
     crop_arguments = dict()
+    remaining_arguments = ""
     if len(args) > 4:
         crop_arguments_str = args[4]
-        p = PeekableTextIO(io.StringIO(crop_arguments_str))
-        peeked = p.peek(1)
-        if peeked != "{":
-            raise ValueError(
-                f"expected crop arguments to be a JSON object; got {repr(crop_arguments_str)}"
-            )
+        if crop_arguments_str.strip() in ("lazy", "eager"):
+            remaining_arguments = crop_arguments_str.strip()
+        else:
+            if crop_arguments_str[0] != "{":
+                raise ValueError(
+                    f"expected crop arguments to be a JSON object; got {repr(crop_arguments_str)}"
+                )
 
-        real_crop_arguments = p.read(1)
-        while True:
-            peeked = p.peek(1)
-            if not peeked:
+            try:
+                crop_arguments, end = json.JSONDecoder().raw_decode(crop_arguments_str)
+            except json.JSONDecodeError as e:
                 raise ValueError(
                     f"expected crop arguments to be a JSON object; got {repr(crop_arguments_str)}"
                 )
-            real_crop_arguments += p.read(1)
-            if peeked == "}":
-                break
-
-        remaining_arguments = p.read()
-        if remaining_arguments and remaining_arguments[0] == " ":
-            args = args[:4] + [real_crop_arguments, remaining_arguments]
-
-        try:
-            crop_arguments = json.loads(real_crop_arguments)
-        except json.JSONDecodeError as e:
-            raise ValueError(
-                f"expected crop arguments to be a JSON object; got {repr(crop_arguments_str)}"
-            )
 
-    lazy = True
-    if len(args) > 5:
-        lazy = args[5] == "lazy"
+            remaining_arguments = crop_arguments_str[end:].strip()
+
+    if remaining_arguments not in ("", "lazy", "eager"):
+        raise ValueError(f"expected lazy or eager; got {repr(remaining_arguments)}")
+
+    lazy = remaining_arguments != "eager"
 
     return ImageCommand(
         path=source_path,
@@ -183,14 +219,12 @@ def validate_command(
 
     try:
         img = Image.open(os.path.join(context.folder, path_relative_to_root))
-        if img.width < command.width:
-            return False
-        if img.height < command.height:
-            return False
+        img_width = img.width
+        img_height = img.height
         img.close()
     except FileNotFoundError:
         return False
     except UnidentifiedImageError:
         return False
 
-    return True
+    return command.fits_image(img_width, img_height)
diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 568add8..9021ec4 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -166,6 +166,9 @@ def export_command(
     image_height = image.height
     image.close()
     del image
+    usable_width, usable_height = command.size_after_pre_crops(
+        image_width, image_height
+    )
 
     contents_hash = calculate_hash(
         os.path.join(context.public_folder, path_relative_to_public)
@@ -182,7 +185,7 @@ def export_command(
     with concurrent.futures.ProcessPoolExecutor() as executor:
         futures: List[concurrent.futures.Future] = []
         for out_width, out_height in yield_sizes(
-            context, image_width, image_height, command.width, command.height
+            context, usable_width, usable_height, command.width, command.height
         ):
             for format_name, format_settings in context.image_settings.formats.items():
                 for export_name, export_settings in format_settings.exports.items():
@@ -213,7 +216,7 @@ def export_command(
             assert future.done()
 
     for out_width, out_height in yield_sizes(
-        context, image_width, image_height, command.width, command.height
+        context, usable_width, usable_height, command.width, command.height
     ):
         for format_name, format_settings in context.image_settings.formats.items():
             best_export: Optional[ImageExport] = None
diff --git a/vanillaplusjs/build/html/manips/images/scanner.py b/vanillaplusjs/build/html/manips/images/scanner.py
index 1672f99..1072fad 100644
--- a/vanillaplusjs/build/html/manips/images/scanner.py
+++ b/vanillaplusjs/build/html/manips/images/scanner.py
@@ -79,9 +79,17 @@ def scan_command(
     image.close()
 
     for out_width, out_height in yield_sizes(
-        context, image_width, image_height, command.width, command.height
+        context,
+        *command.size_after_pre_crops(image_width, image_height),
+        command.width,
+        command.height,
     ):
-        for format_name in context.image_settings.formats.keys():
+        for format_name, format_settings in context.image_settings.formats.items():
+            if not any(
+                export_settings.applies_to(out_width, out_height)
+                for export_settings in format_settings.exports.values()
+            ):
+                continue
             file_name = f"{out_width}x{out_height}.{format_name}"
             produces.append(os.path.join(target_art_folder_relative_to_root, file_name))
             produces.append(os.path.join(target_out_folder_relative_to_root, file_name))
-- 
2.43.0


From 774e60442a51c1052f14c6f4f32ad8fa030d82ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 56/67] fix: rebuild importers of image glue when placeholders
 are disabled

---
 vanillaplusjs/build/js/manips/hash_imports.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d9dc15e..babc4b0 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -160,12 +160,20 @@ class HashImportsManipulator(JSYieldManipulator):
             rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
             import_path = "/" + rel_to_public.replace(os.path.sep, "/")
 
+        depends_on = rel_to_root
+        if rel_to_root.endswith(".images.js"):
+            # it comes from the json file by the same name; there might not be a
+            # placeholder
+            json_file = rel_to_root[: -len(".js")] + ".json"
+            if os.path.exists(os.path.join(self.context.folder, json_file)):
+                depends_on = json_file
+
         if self.mode == "scan":
-            self.dependencies.add(rel_to_root)
+            self.dependencies.add(depends_on)
             self.skip_next_import = True
             return False
 
-        self.children.add(rel_to_root)
+        self.children.add(depends_on)
 
         rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
 
-- 
2.43.0


From d036ebfee45778649e8d3fe5000093e474ca0a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 57/67] fix: remove dropped external files exactly once

---
 .../build/cold_incremental_rebuild.py         | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 796770a..7ea27b2 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -119,22 +119,28 @@ async def check_external_files(context: BuildContext):
     Args:
         context (BuildContext): The context to build in
     """
-    if not context.external_files:
-        return
-
     external_files_state = ExternalFilesState(state_by_relpath=dict())
     if os.path.exists(context.external_files_state_file):
         with open(context.external_files_state_file, "r") as f:
             external_files_state = ExternalFilesState.from_json(json.load(f))
 
+    if not context.external_files and not external_files_state.state_by_relpath:
+        return
+
     logger.info("Checking external files")
 
     new_external_files_state = ExternalFilesState(state_by_relpath=dict())
 
-    for old_external_file_relpath in external_files_state.state_by_relpath.keys():
+    for old_external_file_relpath in list(external_files_state.state_by_relpath.keys()):
         if old_external_file_relpath not in context.external_files:
             logger.info("Deleting old external file {}", old_external_file_relpath)
-            os.remove(os.path.join(context.folder, old_external_file_relpath))
+            try:
+                os.remove(os.path.join(context.folder, old_external_file_relpath))
+            except FileNotFoundError:
+                pass
+            # a file which is put there afterwards is not an external file
+            del external_files_state.state_by_relpath[old_external_file_relpath]
+            store_external_files_state(context, external_files_state)
 
     executor: Optional[ProcessPoolExecutor] = None
     # We don't want to spin up a whole process pool unless we actually have
@@ -182,10 +188,20 @@ async def check_external_files(context: BuildContext):
                 ),
             )
 
-    external_files_state_folder = os.path.dirname(context.external_files_state_file)
-    makedirs_safely(external_files_state_folder)
-    with open(context.external_files_state_file, "w") as f:
-        json.dump(dataclasses.asdict(new_external_files_state), f)
+    store_external_files_state(context, new_external_files_state)
+
+
+def store_external_files_state(
+    context: BuildContext, external_files_state: ExternalFilesState
+) -> None:
+    """Stores the given state of the external files, such that nobody can see a
+    part of it
+    """
+    makedirs_safely(os.path.dirname(context.external_files_state_file))
+    temp_path = context.external_files_state_file + ".tmp"
+    with open(temp_path, "w") as f:
+        json.dump(dataclasses.asdict(external_files_state), f)
+    os.replace(temp_path, context.external_files_state_file)
 
 
 def is_external_file_skippable(
-- 
2.43.0


From bec05ee3022290d7c70d37d23224f5138ec2d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 58/67] fix: clean only removes generated placeholders

---
 vanillaplusjs/runners/clean.py | 56 ++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 2cb9aaa..b46a86d 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -3,7 +3,7 @@ import argparse
 import os
 import shutil
 import sys
-from vanillaplusjs.build.graph import FileDependencyGraph
+from vanillaplusjs.build.handlers.image_glue import PLACEHOLDER_FILE
 
 
 def main(args: Sequence[str]):
@@ -55,19 +55,36 @@ def clean(folder: str, placeholders: bool) -> None:
         sys.exit(1)
 
     if placeholders:
-        placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")
-        if os.path.exists(placeholder_graph_path):
-            with open(placeholder_graph_path, "r") as f:
-                placeholder_graph = FileDependencyGraph.load(f)
-
-            for file, node in placeholder_graph.nodes.items():
-                if node.parents:
-                    os.remove(os.path.join(folder, file))
+        for file in find_placeholders(folder):
+            os.remove(os.path.join(folder, file))
 
     shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)
     shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)
 
 
+def find_placeholders(folder: str) -> List[str]:
+    """Finds the files in the src folder of the project at the given folder which
+    were generated, i.e., not those which were written or changed by the user.
+
+    Args:
+        folder (str): The folder containing vanillaplusjs.json
+
+    Returns:
+        List[str]: The generated files relative to the folder
+    """
+    placeholders: List[str] = []
+    for dirpath, _, filenames in os.walk(os.path.join(folder, "src", "public")):
+        for filename in sorted(filenames):
+            path = os.path.join(dirpath, filename)
+            if not filename.endswith(".images.js") or not os.path.isfile(path):
+                continue
+            with open(path, "rb") as f:
+                contents = f.read().replace(b"\r\n", b"\n")
+            if contents == PLACEHOLDER_FILE.encode("utf-8"):
+                placeholders.append(os.path.relpath(path, folder))
+    return placeholders
+
+
 def prompt_placeholders(folder: str) -> bool:
     """Prompts the user if they want to remove the generated placeholders.
     This will intelligently skip prompting if the choice is irrelevant, and
@@ -79,30 +96,15 @@ def prompt_placeholders(folder: str) -> bool:
     Returns:
         bool: The users choice, if it matters, otherwise an arbitrary value
     """
-    placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")
-    if not os.path.exists(placeholder_graph_path):
-        return False
-
-    with open(placeholder_graph_path, "r") as f:
-        placeholder_graph = FileDependencyGraph.load(f)
-
-    if len(placeholder_graph.nodes) == 0:
-        return False
-
-    placeholders: List[str] = []
-    for file, node in placeholder_graph.nodes.items():
-        if node.parents:
-            placeholders.append(file)
-
+    placeholders = find_placeholders(folder)
     if len(placeholders) == 0:
         return False
 
     print("This prompt can be suppressed by --placeholders or --no-placeholders.")
     print("The following placeholders would be removed:")
     for idx, placeholder in enumerate(placeholders):
-        print(
-            f"{idx + 1}. {placeholder} (generated by {placeholder_graph.get_parents(placeholder)})"
-        )
+        generator = placeholder[: -len(".js")] + ".json"
+        print(f"{idx + 1}. {placeholder} (generated by {generator})")
 
     print("Do you want to remove them? (y/n) ", end="")
 
-- 
2.43.0


From fad76542439e665accf2c0e20ed4be6b001f9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 59/67] fix: do not lose changes or stop watching when files
 change during or after a rebuild

---
 vanillaplusjs/runners/dev.py | 104 ++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 37 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..b17adf0 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -1,4 +1,4 @@
-from typing import Sequence, Set
+from typing import List, Sequence, Set
 from vanillaplusjs.build.build_context import (
     BuildContext,
     load_external_files,
@@ -30,6 +30,7 @@ import time
 import json
 import asyncio
 import shutil
+import itertools
 
 
 def main(args: Sequence[str]):
@@ -159,6 +160,16 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         os.chdir(abs_cwd)
 
 
+def get_parent_folders(relpath: str) -> List[str]:
+    """Determines the folders the file with the given relative path is in"""
+    result: List[str] = []
+    folder = os.path.dirname(relpath)
+    while folder:
+        result.append(folder)
+        folder = os.path.dirname(folder)
+    return result
+
+
 class DevEventHandler(FileSystemEventHandler):
     """Handles file system events from watchdog; when we receive an event
     we will perform a hot incremental rebuild. This will debounce the changes
@@ -211,6 +222,27 @@ class DevEventHandler(FileSystemEventHandler):
             self.changed_files.clear()
             self.created_files.clear()
 
+            # unless this succeeds or there are changes in the meantime
+            self.project_is_unbuildable = True
+
+        try:
+            self.rebuild(deleted, changed, created)
+            with self.lock:
+                self.project_is_unbuildable = False
+        except Exception:
+            logger.exception("Error rebuilding")
+            with self.lock:
+                # what happened to them is determined by the next rebuild
+                self.changed_files.update(changed)
+                self.created_files.update(created)
+                self.deleted_files.update(deleted)
+
+    def rebuild(self, deleted: Set[str], changed: Set[str], created: Set[str]):
+        """Rebuilds the project for the files with the given absolute paths. What
+        really happened to them is determined by comparing the files on the disk
+        with those of the last build, since there may have been several events for
+        the same file, and some of them may have been handled by the last build.
+        """
         logger.info("Rebuilding...")
 
         context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
@@ -244,17 +276,38 @@ class DevEventHandler(FileSystemEventHandler):
             with open(context.placeholder_graph_file) as f:
                 old_placeholder_graph = FileDependencyGraph.load(f)
 
-        changed_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in changed
-        )
+        changed_files = dict()
+        added_files = dict()
+        deleted_files = list()
 
-        added_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in created
+        relpaths = set(
+            os.path.relpath(file, self.folder)
+            for file in itertools.chain(deleted, changed, created)
+        )
+        # all the files in a deleted folder are deleted
+        relpaths.update(
+            file
+            for file in old_dependency_graph.nodes
+            if any(
+                os.path.join(self.folder, folder) in deleted
+                for folder in get_parent_folders(file)
+            )
         )
 
-        deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
+        for file in relpaths:
+            signature = None
+            try:
+                if not os.path.isdir(os.path.join(self.folder, file)):
+                    signature = get_file_signature(os.path.join(self.folder, file))
+            except (FileNotFoundError, NotADirectoryError):
+                pass
+
+            if signature is not None and file in old_dependency_graph:
+                changed_files[file] = signature
+            elif signature is not None:
+                added_files[file] = signature
+            elif file in old_dependency_graph:
+                deleted_files.append(file)
 
         if changed_files:
             for file, signature in changed_files.items():
@@ -289,32 +342,6 @@ class DevEventHandler(FileSystemEventHandler):
                     asyncio.wait(pending, return_when=asyncio.ALL_COMPLETED)
                 )
                 pending = asyncio.all_tasks(loop)
-
-            with self.lock:
-                self.project_is_unbuildable = False
-        except Exception:
-            logger.exception("Error rebuilding")
-            with self.lock:
-                for file in changed:
-                    if os.path.lexists(file):
-                        if file not in self.created_files:
-                            self.changed_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in created:
-                    if os.path.lexists(file):
-                        if file not in self.changed_files:
-                            self.created_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in deleted:
-                    if not os.path.lexists(file):
-                        if file in self.changed_files:
-                            self.changed_files.remove(file)
-                        if file in self.created_files:
-                            self.created_files.remove(file)
-                        self.deleted_files.add(file)
-                self.project_is_unbuildable = True
         finally:
             asyncio.set_event_loop(None)
             loop.close()
@@ -341,14 +368,15 @@ class DevEventHandler(FileSystemEventHandler):
             self.last_change_at = time.time()
 
     def on_deleted(self, event: FileDeletedEvent):
-        if event.is_directory:
-            return
+        # there are no events for the files in a folder which is moved away
         with self.lock:
             if event.src_path in self.changed_files:
                 self.changed_files.remove(event.src_path)
                 self.deleted_files.add(event.src_path)
             elif event.src_path in self.created_files:
                 self.created_files.remove(event.src_path)
+                # it may have replaced another file
+                self.deleted_files.add(event.src_path)
             else:
                 self.deleted_files.add(event.src_path)
             self.project_is_unbuildable = False
@@ -356,6 +384,8 @@ class DevEventHandler(FileSystemEventHandler):
 
     def on_moved(self, event: FileMovedEvent):
         if event.is_directory:
+            # there are also events for the files which still exist in it
+            self.on_deleted(FileDeletedEvent(event.src_path))
             return
         with self.lock:
             self.on_deleted(FileDeletedEvent(event.src_path))
-- 
2.43.0


From 9ce201efad1a7509631fe6bc93f101d849b7bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 60/67] fix: watch for changes during the first build

---
 vanillaplusjs/runners/dev.py | 59 ++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b17adf0..fbc407a 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -88,26 +88,26 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         )
         sys.exit(1)
 
-    try:
-        build(folder=folder, dev=True, symlinks=None, delay_files=[])
-    except Exception as e:
-        if isinstance(e, SystemExit):
-            raise
-
-        if not os.path.lexists(os.path.join(folder, "out")):
-            raise
-
-        logger.exception(
-            "During first build, will retry with fresh easy-to-regenerate files"
-        )
-        shutil.rmtree(os.path.join(folder, "out"))
-        build(folder=folder, dev=True, symlinks=None, delay_files=[])
-
     if not watch:
+        first_build(folder)
         return run_server(folder=folder, host=host, port=port)
 
     abs_cwd = os.path.abspath(os.getcwd())
     abs_folder = os.path.abspath(folder)
+
+    # we watch during the first build, since it may miss changes in the meantime
+    event_handler = DevEventHandler(
+        folder=abs_folder,
+        debounce_seconds=debounce / 1000,
+        symlinks=detect_symlink_support(),
+    )
+    observer = Observer()
+    observer.schedule(event_handler, os.path.join(abs_folder, "src"), recursive=True)
+    observer.daemon = True
+    observer.start()
+
+    first_build(folder)
+
     os.chdir(os.path.join(folder, "out", "www"))
     try:
         logger.info(f"Running server on {host}:{port}")
@@ -131,17 +131,6 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         server_thread.start()
 
         logger.info("Watching for changes...")
-        event_handler = DevEventHandler(
-            folder=abs_folder,
-            debounce_seconds=debounce / 1000,
-            symlinks=detect_symlink_support(),
-        )
-        observer = Observer()
-        observer.schedule(
-            event_handler, os.path.join(abs_folder, "src"), recursive=True
-        )
-        observer.daemon = True
-        observer.start()
         while True:
             time.sleep(0.1)
             if not server_thread.is_alive():
@@ -160,6 +149,24 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
         os.chdir(abs_cwd)
 
 
+def first_build(folder: str) -> None:
+    """Builds the project with the given root folder in development mode"""
+    try:
+        build(folder=folder, dev=True, symlinks=None, delay_files=[])
+    except Exception as e:
+        if isinstance(e, SystemExit):
+            raise
+
+        if not os.path.lexists(os.path.join(folder, "out")):
+            raise
+
+        logger.exception(
+            "During first build, will retry with fresh easy-to-regenerate files"
+        )
+        shutil.rmtree(os.path.join(folder, "out"))
+        build(folder=folder, dev=True, symlinks=None, delay_files=[])
+
+
 def get_parent_folders(relpath: str) -> List[str]:
     """Determines the folders the file with the given relative path is in"""
     result: List[str] = []
-- 
2.43.0


From 7f0e6a3c45584f16af8756a0ad662e2545f817ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:20 +0000
Subject: [PATCH 61/67] fix: escape the urls of generated files

---
 vanillaplusjs/build/css/manips/outline_image_data.py |  8 ++++++--
 vanillaplusjs/build/handlers/image_glue.py           |  4 +++-
 vanillaplusjs/build/html/manips/images/manip.py      |  9 ++++++---
 vanillaplusjs/build/html/manips/outline.py           | 10 ++++++----
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index 5ff551f..9bb8979 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -6,7 +6,7 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.manipulator import CSSManipulator
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.handlers.hash as hash_handler
-from urllib.parse import unquote_to_bytes, urlencode
+from urllib.parse import quote, unquote_to_bytes, urlencode
 import base64
 import binascii
 import re
@@ -108,7 +108,11 @@ class OutlineImageDataManipulator(CSSManipulator):
 
         new_node = node.copy()
         new_node["value"] = (
-            out_relpath[len(os.path.join("out", "www")) :].replace(os.path.sep, "/")
+            quote(
+                out_relpath[len(os.path.join("out", "www")) :].replace(
+                    os.path.sep, "/"
+                )
+            )
             + "?"
             + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
         )
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 346cb59..19d8c1e 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,6 +75,7 @@ type hints.
 """
 
 import dataclasses
+from urllib.parse import quote
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
@@ -237,7 +238,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
                             {
                                 "width": output.width,
                                 "height": output.height,
-                                "url": "/" + output.relpath.replace(os.path.sep, "/"),
+                                "url": "/"
+                                + quote(output.relpath.replace(os.path.sep, "/")),
                                 "choice": output.choice,
                             }
                             for output in outputs
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index 8de53e2..fcef507 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -6,6 +6,7 @@ import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
 import re
+from urllib.parse import quote
 from vanillaplusjs.build.html.manips.images.command import (
     ImageCommand,
     parse_command,
@@ -79,7 +80,7 @@ class ImagesManipulator(HTMLManipulator):
                     name="source",
                     data={
                         (None, "srcset"): ", ".join(
-                            f"/{output.relpath.replace(os.path.sep, '/')} {output.width}w"
+                            f"/{quote(output.relpath.replace(os.path.sep, '/'))} {output.width}w"
                             for output in outputs
                         )
                     },
@@ -102,9 +103,11 @@ class ImagesManipulator(HTMLManipulator):
                     (None, "width"): str(cmd.width),
                     (None, "height"): str(cmd.height),
                     (None, "src"): "/"
-                    + standard_resolution_output.relpath.replace(os.path.sep, "/"),
+                    + quote(
+                        standard_resolution_output.relpath.replace(os.path.sep, "/")
+                    ),
                     (None, "srcset"): ", ".join(
-                        f"/{output.relpath.replace(os.path.sep, '/')} {output.width}w"
+                        f"/{quote(output.relpath.replace(os.path.sep, '/'))} {output.width}w"
                         for output in default_outputs
                     ),
                     **({(None, "loading"): "lazy"} if cmd.lazy else dict()),
diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 8da0149..70c477e 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -8,7 +8,7 @@ import os
 import io
 import tempfile
 from html5lib.constants import namespaces
-from urllib.parse import urlencode
+from urllib.parse import quote, urlencode
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
@@ -163,9 +163,11 @@ class OutlineManipulator(HTMLManipulator):
 
             start_tag_attrs = self.start_tag_attrs
             # we purposely keep the leading slash
-            target_path = self.outlining_to_path[
-                len(os.path.join("src", "public")) :
-            ].replace(os.path.sep, "/")
+            target_path = quote(
+                self.outlining_to_path[
+                    len(os.path.join("src", "public")) :
+                ].replace(os.path.sep, "/")
+            )
 
             # prevent the hasher from marking the generated src file as a dependency
             if self.mode == "scan":
-- 
2.43.0


From 8cf5d994d71a7ec8a0b0a01c66bb899b572b2d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 62/67] fix: serve files which are symlinks, and replaced
 files, correctly

---
 vanillaplusjs/http_server.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 2b4c5c5..ef96129 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -2,13 +2,16 @@
 will serve files
 """
 import contextlib
+import os
 import threading
 import uvicorn
 from starlette.applications import Starlette
+from starlette.datastructures import Headers
 from starlette.routing import Mount
 from starlette.staticfiles import StaticFiles
 import time
 import mimetypes
+from typing import Optional, Tuple
 
 mimetypes.init()
 mimetypes.add_type("text/css", ".css")
@@ -22,6 +25,31 @@ mimetypes.add_type("image/gif", ".gif")
 mimetypes.add_type("image/webp", ".webp")
 
 
+class SiteFiles(StaticFiles):
+    """Static files which may be symlinks to files outside of the folder, as
+    those which are built with symlinks are.
+    """
+
+    def lookup_path(self, path: str) -> Tuple[str, Optional[os.stat_result]]:
+        folder = os.path.abspath(self.directory)
+        full_path = os.path.abspath(os.path.join(folder, path))
+        if os.path.commonpath([folder, full_path]) != folder:
+            return "", None
+        try:
+            return full_path, os.stat(full_path)
+        except (FileNotFoundError, NotADirectoryError):
+            return "", None
+
+    def is_not_modified(
+        self, response_headers: Headers, request_headers: Headers
+    ) -> bool:
+        # the date is only for clients without an etag; files which replace others
+        # may be older than those, or be from the same second
+        if "if-none-match" in request_headers:
+            return request_headers["if-none-match"] == response_headers["etag"]
+        return super().is_not_modified(response_headers, request_headers)
+
+
 @contextlib.contextmanager
 def host_static_files(folder: str, host: str, port: int):
     """Starts a uvicorn server in a separate thread, yields None, and
@@ -30,7 +58,7 @@ def host_static_files(folder: str, host: str, port: int):
     https://github.com/encode/uvicorn/discussions/1103
     """
     routes = [
-        Mount("/", app=StaticFiles(directory=folder, html=True), name="static"),
+        Mount("/", app=SiteFiles(directory=folder, html=True), name="static"),
     ]
 
     app = Starlette(routes=routes)
-- 
2.43.0


From 16edc4eaf905623af561bc5a486af8099ec4328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 63/67] fix: build from folders which cannot be written to

---
 vanillaplusjs/runners/build.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index c7c4533..0351748 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -199,6 +199,8 @@ def detect_symlink_support() -> bool:
         logger.debug("Symlinks disabled (unsupported)")
         return False
     finally:
+        # neither exists if the current folder cannot be written to
         if os.path.exists("___symlink_test___2.txt"):
             os.remove("___symlink_test___2.txt")
-        os.remove("___symlink_test___.txt")
+        if os.path.exists("___symlink_test___.txt"):
+            os.remove("___symlink_test___.txt")
-- 
2.43.0


From 4998e2860e4f087eac181e6e30e0767a59feda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 64/67] fix: fail on page images without an export of the
 requested size

---
 .../build/html/manips/images/manip.py         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index fcef507..b7f7dc6 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -87,14 +87,22 @@ class ImagesManipulator(HTMLManipulator):
                 )
             )
 
-        default_outputs = metadata.target.outputs[
-            self.context.image_settings.default_format
-        ]
+        default_outputs = metadata.target.outputs.get(
+            self.context.image_settings.default_format, []
+        )
         standard_resolution_output = next(
-            output
-            for output in default_outputs
-            if output.width == cmd.width and output.height == cmd.height
+            (
+                output
+                for output in default_outputs
+                if output.width == cmd.width and output.height == cmd.height
+            ),
+            None,
         )
+        if standard_resolution_output is None:
+            raise ValueError(
+                f"{cmd.path} has no {self.context.image_settings.default_format} export "
+                f"for {cmd.width}x{cmd.height}"
+            )
         res.append(
             tkn.HTMLToken(
                 type="EmptyTag",
-- 
2.43.0


From ab24ac25cf8fb53cbbc5d2afdaac8b61e2b1e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 65/67] fix: tell image settings with the same hash apart

---
 .../build/html/manips/images/exporter.py      |  2 ++
 .../build/html/manips/images/metadata.py      | 25 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 9021ec4..e8420dd 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -22,6 +22,7 @@ from vanillaplusjs.build.html.manips.images.metadata import (
     ImageTarget,
     ImageTargetOutput,
     ImageTargetSettings,
+    digest_image_settings,
     get_target,
     hash_image_settings,
     load_metadata,
@@ -304,6 +305,7 @@ def export_command(
 
     metadata = ImageMetadata(
         settings_hash=settings_hash,
+        settings_digest=digest_image_settings(context.image_settings),
         source=source,
         target=ImageTarget(
             settings=target,
diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index c978fe8..e5366d7 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -25,6 +25,7 @@ import dataclasses
 from decimal import Decimal
 from vanillaplusjs.build.build_context import BuildContext
 from typing import Dict, Literal, List, Optional, Union
+import hashlib
 import os
 import json
 import fasteners
@@ -175,6 +176,12 @@ class ImageMetadata:
     target: ImageTarget
     """The target image"""
 
+    settings_digest: Optional[str] = None
+    """The digest of the ImageSettings on the BuildContext when these settings were
+    generated, since different settings can have the same hash. None if these
+    were generated before it was stored.
+    """
+
 
 def load_metadata(serd: dict) -> ImageMetadata:
     """Loads the metadata from a JSON serialized dict."""
@@ -204,6 +211,7 @@ def load_metadata(serd: dict) -> ImageMetadata:
                 for key, value in serd["target"]["outputs"].items()
             ),
         ),
+        settings_digest=serd.get("settings_digest"),
     )
 
 
@@ -266,6 +274,7 @@ def _get_target(
     # the hash file in the out folder can still be from the previous contents
     contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
     settings_hash = hash_image_settings(context.image_settings)
+    settings_digest = digest_image_settings(context.image_settings)
 
     scanner = os.scandir(art_path)
     try:
@@ -285,6 +294,7 @@ def _get_target(
                     if (
                         placeholder.get("source") == contents_hash
                         and placeholder.get("settings_hash") == settings_hash
+                        and placeholder.get("settings_digest") == settings_digest
                         and load_image_target_settings(placeholder) == target
                     ):
                         return int(entry.name)
@@ -302,6 +312,14 @@ def _get_target(
                     settings_hash,
                 )
                 continue
+            if entry_metadata.settings_digest not in (None, settings_digest):
+                logger.debug(
+                    "{} is not a match for {}; the settings are different ones",
+                    entry.path,
+                    relpath,
+                )
+                continue
+
             if entry_metadata.source.contents_hash != contents_hash:
                 logger.debug(
                     "{} is not a match for {}; the source hash is {} but should be {}",
@@ -381,6 +399,7 @@ def _reserve_target(
             **dataclasses.asdict(target),
             "source": calculate_hash(os.path.join(context.public_folder, relpath)),
             "settings_hash": hash_image_settings(context.image_settings),
+            "settings_digest": digest_image_settings(context.image_settings),
         },
         os.path.join(entry_path, "placeholder.json"),
     )
@@ -449,6 +468,12 @@ def hash_image_settings(settings: ImageSettings) -> int:
     return result
 
 
+def digest_image_settings(settings: ImageSettings) -> str:
+    """Produces a digest which tells the given image settings from all others."""
+    serd = json.dumps(dataclasses.asdict(settings), default=str)
+    return hashlib.sha256(serd.encode("utf-8")).hexdigest()
+
+
 def overflow(n: int) -> int:
     """Overflows the integer as if it were a 64-bit unsigned integer."""
     return n & 0xFFFFFFFFFFFFFFFF
-- 
2.43.0


From 8159668c34cd7b0768164a864121dd9a77c75ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 66/67] fix: rebuild after changes of the settings

---
 .../build/hot_incremental_rebuild.py          | 44 +++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 2c65671..1b995cc 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -9,9 +9,11 @@ from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file import scan_file
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+from vanillaplusjs.constants import PROCESSOR_VERSION
 from .graph import FileDependencyGraph
 from loguru import logger
 import concurrent.futures
+import dataclasses
 import hashlib
 import json
 import os
@@ -92,10 +94,23 @@ async def hot_incremental_rebuild(
 
     deleted_files = list(deleted_files)
 
-    if os.path.exists(context.unfinished_build_file):
-        # The last build failed or was killed after it started to modify the
-        # outputs, so we cannot trust any of them.
-        logger.info("The last build did not finish, rebuilding everything")
+    old_settings: Optional[str] = None
+    new_settings = describe_settings(context)
+    try:
+        with open(os.path.join(context.out_folder, "settings.txt"), "r") as f:
+            old_settings = f.read()
+    except FileNotFoundError:
+        pass
+
+    unfinished = os.path.exists(context.unfinished_build_file)
+    if unfinished or (old_settings != new_settings and old_dependency_graph.nodes):
+        # Either the last build failed or was killed after it started to modify
+        # the outputs, so we cannot trust any of them, or they were built with
+        # other settings.
+        logger.info(
+            "The last build {}, rebuilding everything",
+            "did not finish" if unfinished else "had other settings",
+        )
         for file in itertools.chain(
             old_dependency_graph.nodes.keys(),
             old_output_graph.nodes.keys(),
@@ -112,6 +127,7 @@ async def hot_incremental_rebuild(
             else:
                 deleted_files.append(file)
 
+    if unfinished:
         public_out_folder = os.path.join(context.out_folder, "www")
         if os.path.isdir(public_out_folder):
             for name in os.listdir(public_out_folder):
@@ -669,6 +685,9 @@ async def hot_incremental_rebuild(
                 graph.store(fp)
             os.replace(graph_file + ".tmp", graph_file)
 
+        with open(os.path.join(context.out_folder, "settings.txt"), "w") as f:
+            f.write(new_settings)
+
         if new_constants_mode is not None:
             with open(
                 os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
@@ -683,6 +702,23 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def describe_settings(context: BuildContext) -> str:
+    """Describes everything apart from the source files, and the js constants, which
+    the outputs are built from.
+    """
+    serd = json.dumps(
+        [
+            PROCESSOR_VERSION,
+            context.host,
+            dataclasses.asdict(context.icon_settings.default_button),
+            dataclasses.asdict(context.image_settings),
+            context.auto_generate_images_js_placeholders,
+        ],
+        default=str,
+    )
+    return hashlib.sha256(serd.encode("utf-8")).hexdigest()
+
+
 def describe_js_constants(context: BuildContext) -> str:
     """Describes what the file containing the js constants is built from: the mode,
     the path of the file, and the constants, each on their own line.
-- 
2.43.0


From 0e1bbf6e094ba5c1e047af5f083cdbe104e4d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:59 +0000
Subject: [PATCH 67/67] fix: rebuild after switching between copies and
 symlinks

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 1b995cc..d88e8e8 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -713,6 +713,7 @@ def describe_settings(context: BuildContext) -> str:
             dataclasses.asdict(context.icon_settings.default_button),
             dataclasses.asdict(context.image_settings),
             context.auto_generate_images_js_placeholders,
+            context.symlinks,
         ],
         default=str,
     )
-- 
2.43.0

