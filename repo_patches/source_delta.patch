From 14c3da9ee1cafbc4da1fca84b7690c1ba4a2e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 01/31] fix: sanitize absolute metadata paths on Python 3.12
 and later

Since Python 3.12 PurePath.__init__() assigns the path from the original
constructor arguments, which undid the conversion that __new__() performs:
absolute paths stayed absolute.
---
 dataladmetadatamodel/metadatapath.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..910235f 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,3 +1,4 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
@@ -27,6 +28,16 @@ class MetadataPath(PurePosixPath):
 
         return created_path
 
+    def __init__(self, *args):
+        # Since Python 3.12 the path is assigned in PurePath.__init__(), which
+        # would receive the original arguments. Pass the sanitized path instead.
+        if sys.version_info >= (3, 12):
+            original_path = PurePosixPath(*args)
+            super().__init__("/".join(
+                original_path.parts[1:]
+                if original_path.is_absolute()
+                else original_path.parts))
+
     def __str__(self):
         path_str = PurePosixPath.__str__(self)
         return (
-- 
2.43.0


From ea122a150363994871896cd7600643ddde799794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 02/31] fix: create metadata for new paths in
 FileTree.add_extractor_run()

get_metadata() returns None for an unknown path, it does not raise
AttributeError.
---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From ddecbae40b72f76ff7a621b688e073d668fb4a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 03/31] fix: compare metadata instance sets with more than one
 configuration

Extractor configurations are not orderable, sorting them raised TypeError.
In addition the result depended on the order in which runs were added.
---
 dataladmetadatamodel/metadata.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..39147f1 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,18 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        # Instances are identified by their configuration, the order in which
+        # configurations were added is not relevant.
+        return (
+            len(self.parameter_set) == len(other.parameter_set)
+            and len(self._instances) == len(other._instances)
+            and all(
+                configuration in other.parameter_set
+                for configuration in self.parameter_set)
+            and all(
+                instance in other._instances.values()
+                for instance in self._instances.values())
+        )
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From 70217572c134241d011281b7004d6a9f57abc294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 04/31] fix: hash extractor configurations with nested
 parameters

Parameters may hold any JSON value, lists and dictionaries are not hashable.
---
 dataladmetadatamodel/metadata.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 39147f1..a86bbc5 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -19,9 +19,20 @@ from dataladmetadatamodel.mappableobject import MappableObject
 from dataladmetadatamodel.mapper.reference import Reference
 
 
+def _hashable(obj: JSONObject):
+    """ Convert obj to a hashable object, equal objects have equal results """
+    if isinstance(obj, dict):
+        return frozenset(
+            (key, _hashable(value))
+            for key, value in obj.items())
+    if isinstance(obj, (list, tuple)):
+        return tuple(map(_hashable, obj))
+    return obj
+
+
 class ParameterDict(dict):
     def __hash__(self):
-        return hash(tuple(sorted(self.items())))
+        return hash(_hashable(self))
 
 
 class ExtractorConfiguration:
-- 
2.43.0


From e84227c51980df9d170a9241db2ebfb4dd0869a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 05/31] fix: load purged metadata before comparing or
 serializing it

A purged metadata object compared equal to empty metadata and was serialized
as empty metadata.
---
 dataladmetadatamodel/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index a86bbc5..4775848 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -257,6 +257,8 @@ class Metadata(MappableObject):
         self.instance_sets: Dict[str, MetadataInstanceSet] = dict()
 
     def __eq__(self, other):
+        self.ensure_mapped()
+        other.ensure_mapped()
         return self.instance_sets == other.instance_sets
 
     @staticmethod
@@ -310,6 +312,7 @@ class Metadata(MappableObject):
         self.instance_sets[extractor_name] = instance_set
 
     def to_json(self) -> str:
+        self.ensure_mapped()
         return json.dumps({
             "@": dict(
                 type="Metadata",
-- 
2.43.0


From 11e68dad4b66b92b96b88dcc405173fdb50577fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 06/31] fix: support metadata root records without
 dataset-level metadata

Purging, reading, and copying them raised AttributeError.
---
 dataladmetadatamodel/metadatarootrecord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..2f177d6 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,11 +45,11 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
+        if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
-        if self.dataset_level_metadata is not None:
-            self.dataset_level_metadata = None
+        self.dataset_level_metadata = None
         self._file_tree = None
 
     def set_file_tree(self, file_tree: FileTree):
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From ace4df8e2144f935ef9f4917d026828718d2de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 07/31] fix: persist metadata root records without identifier
 or version

None was stored as the string 'None'. A record without dataset identifier could
not be loaded, a record without dataset version got the version 'None'.
---
 .../mapper/gitmapper/metadatarootrecordmapper.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..589955b 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -50,9 +50,10 @@ class MetadataRootRecordGitMapper(Mapper):
         else:
             file_tree = FileTree(realm=realm, reference=file_tree_reference)
 
+        dataset_identifier = json_object[Strings.DATASET_IDENTIFIER]
         MetadataRootRecord.__init__(
             metadata_root_record,
-            UUID(json_object[Strings.DATASET_IDENTIFIER]),
+            None if dataset_identifier is None else UUID(dataset_identifier),
             json_object[Strings.DATASET_VERSION],
             metadata,
             file_tree,
@@ -88,8 +89,11 @@ class MetadataRootRecordGitMapper(Mapper):
             add_blob_reference(dataset_level_metadata_reference.location)
 
         json_object = {
-            Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
-            Strings.DATASET_VERSION: str(mrr.dataset_version),
+            Strings.DATASET_IDENTIFIER: (
+                None
+                if mrr.dataset_identifier is None
+                else str(mrr.dataset_identifier)),
+            Strings.DATASET_VERSION: mrr.dataset_version,
             Strings.DATASET_LEVEL_METADATA: dataset_level_metadata_reference.to_json_obj(),
             Strings.FILE_TREE: file_tree_reference.to_json_obj()}
 
-- 
2.43.0


From e4e4f39a885da3102f3020bc1a2703dd59b32ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 08/31] fix: save objects whose sub-objects were modified and
 saved separately

If a sub-object was modified and written on its own, e.g. by unget_metadata()
or unget_versioned_element(), its container was considered to be saved, and
its stored representation kept on referring to the old sub-object.
---
 dataladmetadatamodel/mappableobject.py | 29 +++++++++++++++++++++++++-
 dataladmetadatamodel/mtreeproxy.py     |  4 ++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..e63300c 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -67,6 +67,31 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.reference = reference
         self.mapped = reference is None
 
+        # The references of the sub-objects that are part of the
+        # stored representation of this object. None, if unknown.
+        self.stored_sub_references = None
+
+    def _get_sub_references(self) -> list:
+        return [
+            None if sub_object.reference is None else sub_object.reference.location
+            for sub_object in self.modifiable_sub_objects
+        ]
+
+    def is_saved_on(self, destination: str) -> bool:
+        """
+        Besides the conditions of ModifiableObject.is_saved_on(), no
+        sub-object must have been stored under a new reference since
+        this object was stored. Otherwise, the stored representation
+        of this object refers to outdated sub-objects.
+        """
+        if not super().is_saved_on(destination):
+            return False
+        return (
+            not self.mapped
+            or self.stored_sub_references is None
+            or self.stored_sub_references == self._get_sub_references()
+        )
+
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
         """
@@ -122,6 +147,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.stored_sub_references = self._get_sub_references()
 
         else:
 
@@ -194,6 +220,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 force_write)
 
         self.set_saved_on(destination_realm)
+        self.stored_sub_references = self._get_sub_references()
 
         assert isinstance(self.reference, Reference), \
             f"write_out({self}): object {self} has no valid " \
@@ -204,7 +231,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            if not any(map(self.is_saved_on, self.saved_on)):
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..69b9ca5 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -47,6 +47,10 @@ class MTreeProxy:
             assert mtree.leaf_class == leaf_class
             self.mtree = mtree
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
-- 
2.43.0


From a60219be4a1fdf276c313bd729c9e24e1b361d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 09/31] fix: save trees that contain empty sub-trees

Sub-trees without content, e.g. after removing their last element, are not
stored, there is no object that an entry could refer to.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..30e9ed1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -70,7 +70,11 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            if not child_node.reference.is_none_reference()
         ]
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
+
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From beeb6544cbc5595edb63b08027a7119c2127f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 10/31] fix: treat objects that are created with a
 None-reference as saved

There is nothing to be saved. Because they were regarded as modified, neither
loaded version lists that refer to an empty dataset tree could be saved, nor
could the empty tree be copied or purged.
---
 dataladmetadatamodel/mappableobject.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index e63300c..670ea33 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -57,11 +57,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         # We assume that objects that carry a reference have been
         # saved in the location given by the reference.
-        super().__init__(
-            realm
-            if reference is not None and not reference.is_none_reference()
-            else None
-        )
+        super().__init__(realm if reference is not None else None)
 
         self.realm = realm
         self.reference = reference
@@ -126,6 +122,8 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 assert self.reference.class_name == type(self).__name__
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
+                self.mapped = True
+                self.stored_sub_references = self._get_sub_references()
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From fcbe4180416537ddf473d9a3b9b6b5ae7f6434a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 11/31] fix: return a tree version list reference from the tree
 version list mapper

The reference to a version list made it impossible to load a tree version list
again after it was saved and purged.
---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f39c695 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -111,4 +111,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From 64e3e18b20b49876e88bfe9bc4a9769044b64c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 12/31] fix: save trees without entries

The input to git mktree was an empty line, which is not a valid tree entry.
Therefore, an empty UUID set could not be saved.
---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..121d272 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -150,10 +150,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -161,10 +161,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From 666534d725cf2f8ff438a9e92f18974b97fe2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 13/31] fix: save tree entries with a newline in their name

git mktree reads one entry per line, a newline has to be quoted.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 30e9ed1..f8f02c2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -80,12 +80,13 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        if '"' in input_string or '\n' in input_string:
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
                 + '"'
             )
         else:
-- 
2.43.0


From 297a3a2c570e09a3bb508d35de72f01279173e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 14/31] fix: load stored strings unmodified

Splitting the output of git into lines and joining it again removed trailing
newlines and replaced all other line boundaries by newlines.
---
 .../mapper/gitmapper/gitbackend/subprocess.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 121d272..4dcf71b 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -29,9 +29,9 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
-def checked_execute(arguments: Union[str, List[str]],
-                    stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+def checked_execute_raw(arguments: Union[str, List[str]],
+                        stdin_content: Optional[Union[str, bytes]] = None
+                        ) -> Tuple[str, str]:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -45,9 +45,15 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
-    return (
-        result.stdout.decode().splitlines(),
-        result.stderr.decode().splitlines())
+    return result.stdout.decode(), result.stderr.decode()
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    stdout, stderr = checked_execute_raw(arguments, stdin_content)
+    return stdout.splitlines(), stderr.splitlines()
 
 
 def git_command_line(repo_dir: str,
@@ -65,8 +71,7 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    return checked_execute_raw(cmd_line)[0]
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From a49e1d9eeef39d0c480b198c0ef85976c084540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 15/31] fix: copy the content of text objects

The copy did not have any content, writing it failed.
---
 dataladmetadatamodel/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..cbfd906 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,7 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
+        copied_text.purge()
         return copied_text
-- 
2.43.0


From 904cef0acf2257b3968e7f4750160ed472f4aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 16/31] fix: load a purged UUID set before modifying it

Otherwise the new version list is either lost, or the set is marked as modified
while its stored elements are not loaded, and it can not be read anymore.
---
 dataladmetadatamodel/uuidset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..1e4173f 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
-- 
2.43.0


From 5622f068802b3c16e1de2095c5571d41a943e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 17/31] fix: load the tree version list and the UUID set
 independently

If only one of them exists, e.g. because saving was interrupted, or if one of
them could not be read, both were considered missing. With auto_create the
existing objects would be replaced by empty objects.
---
 dataladmetadatamodel/common.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..9a8d97c 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -50,6 +50,9 @@ def get_top_level_metadata_objects(
 
     We do this be creating references from known locations
     in the mapper family and loading the referenced objects.
+
+    If one of the objects does not exist, None is returned in
+    its place.
     """
     from dataladmetadatamodel.mapper import (
         get_uuid_set_location,
@@ -69,10 +72,28 @@ def get_top_level_metadata_objects(
             realm,
             get_uuid_set_location(mapper_family)))
 
+    return _read_in_if_present(tree_version_list), _read_in_if_present(uuid_set)
+
+
+def _read_in_if_present(top_level_object: Union[TreeVersionList, UUIDSet]
+                        ) -> Optional[Union[TreeVersionList, UUIDSet]]:
+    """
+    Read in a top-level object. Return None if it does not exist in its realm.
+    """
+    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+        git_object_exists_locally)
+
     try:
-        return tree_version_list.read_in(), uuid_set.read_in()
+        return top_level_object.read_in()
     except RuntimeError:
-        return None, None
+        # Do not take an existing object, which cannot be read, for a missing
+        # object. The caller might create a new one and overwrite the existing.
+        if Reference.is_local(top_level_object.realm) \
+                and git_object_exists_locally(
+                    top_level_object.realm,
+                    top_level_object.reference.location):
+            raise
+        return None
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From 10db1e63a9174534353d0b0d0a373aedda83a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 18/31] fix: do not drop stored object references that cannot
 be read

If reading the existing references failed, they were replaced by the new ones.
---
 .../mapper/gitmapper/objectreference.py                | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..ee07ce1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -92,7 +92,10 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 def flush_object_references(realm: Path):
     global cached_object_references
 
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import (
+        git_object_exists_locally,
+        git_update_ref,
+    )
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -120,6 +123,11 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                # Only start with an empty tree if there are no references yet
+                if git_object_exists_locally(
+                        str(realm),
+                        GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From 49ae01c9554d33df80ec1028c1a66675ce31772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 19/31] fix: add object references for metadata root records in
 version lists

A metadata root record that is only part of a version list, but not of a
stored dataset tree, is not referenced by any git object. It would be removed
by git's garbage collection.
---
 .../mapper/gitmapper/versionlistmapper.py            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f39c695..f4de388 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -3,7 +3,10 @@ from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    add_blob_reference,
+    GitReference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -82,6 +85,13 @@ class VersionListGitMapper(Mapper):
             for version_record in prefix_set.values()
         ]
 
+        # Metadata root records are only referenced by location-strings in
+        # the stored JSON object. Dataset trees add their own references.
+        for record in json_object:
+            reference = record["dataset_tree"]
+            if reference["class_name"] == "MetadataRootRecord":
+                add_blob_reference(reference["location"])
+
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
 
-- 
2.43.0


From b8bbd0632ffe6c7d283f58c62d3fa91ec866cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 20/31] fix: do not interpret repository paths of metadata
 sources in a shell

Paths that contain blanks or shell meta characters were split or executed.
---
 dataladmetadatamodel/metadatasource.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..2505f7e 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -94,9 +94,10 @@ class LocalGitMetadataSource(MetadataSource):
             and self.object_reference == other.object_reference)
 
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = [
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference]
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +109,13 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
+        content = subprocess.check_output([
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference])
         copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+            ["git", "--git-dir", str(destination_repository / ".git"),
+             "hash-object", "-w", "--stdin"],
+            input=content).decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 6d3548e51f1a1a3fc60950a48e0075a176d957f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 21/31] fix: write byte blobs from the git blob cache

Blobs may be given as bytes, those could not be written to a text file.
---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index a0fa835..aee8a32 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -73,8 +73,8 @@ class GitBlobCache:
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-            with temp_file_path.open("tw") as f:
-                f.write(blob)
+            with temp_file_path.open("bw") as f:
+                f.write(blob.encode() if isinstance(blob, str) else blob)
             file_list.append(str(temp_file_path))
 
         hash_values = git_save_file_list(self.realm, file_list)
-- 
2.43.0


From 59219dfbcf927d345e2936fa000f10e9817905b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 22/31] fix: allow saving a file tree again after saving it
 failed

A failing git command left the realm in cached-state forever, and metadata was
marked as saved, although it was only cached. If the file tree was saved again,
the stored tree would refer to metadata objects that do not exist.
---
 .../mapper/gitmapper/gitblobcache.py          |  6 +++++
 .../mapper/gitmapper/metadatamapper.py        |  6 +++++
 dataladmetadatamodel/mtreeproxy.py            | 27 ++++++++++++++-----
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index aee8a32..b4c2a58 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -55,6 +55,12 @@ class GitBlobCache:
         self.cached_objects.append((blob, expected_hash))
         return expected_hash
 
+    def discard(self):
+        """
+        Forget all cached objects that were not written yet
+        """
+        self.cached_objects = []
+
     def flush(self):
         """
         Write all cached objects to a git repository,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..36b95b8 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -33,6 +33,12 @@ class MetadataGitMapper(Mapper):
         cache.flush()
         del cls.metadata_caches[realm]
 
+    @classmethod
+    def discard_realm(cls, realm: str):
+        cache = cls.metadata_caches.pop(realm, None)
+        if cache is not None:
+            cache.discard()
+
     def map_in_impl(self,
                     metadata: "Metadata",
                     realm: str,
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 69b9ca5..fc65d9b 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -77,17 +77,32 @@ class MTreeProxy:
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
 
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+        try:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
+
+            if isinstance(self, FileTree):
+                MetadataGitMapper.flush_realm(cache_destination)
+        except BaseException:
+            # Cached objects were not written, although the mapped objects
+            # are marked as saved. Ensure that they are written next time.
+            if isinstance(self, FileTree):
+                MetadataGitMapper.discard_realm(cache_destination)
+                self._touch_recursive(self.mtree)
+            raise
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location)
         return reference
 
+    @staticmethod
+    def _touch_recursive(mappable_object: MappableObject):
+        if mappable_object.mapped:
+            mappable_object.touch()
+            for sub_object in mappable_object.modifiable_sub_objects:
+                MTreeProxy._touch_recursive(sub_object)
+
     def purge(self):
         return self.mtree.purge()
 
-- 
2.43.0


From aab60952567816bcc361fc2a1b6338e5825c9a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 23/31] fix: write out unmapped objects without explicit
 destination

---
 dataladmetadatamodel/mappableobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 670ea33..59be7a4 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -161,6 +161,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         from dataladmetadatamodel.mapper import get_mapper
 
+        if self.realm:
+            destination_realm = destination_realm or self.realm
+
         # If the object is not mapped and not modified,
         # we do not have to do anything.
         if not self.mapped:
@@ -182,9 +185,6 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f" saved on {destination_realm}")
             return self.reference
 
-        if self.realm:
-            destination_realm = destination_realm or self.realm
-
         assert destination_realm is not None, \
             f"write_out({self}): no destination available for {self}"
 
-- 
2.43.0


From c6da96561aa478db8f439405165418bb1554a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 24/31] fix: load version lists before counting their entries

---
 dataladmetadatamodel/versionlist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..86ff388 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -60,6 +60,7 @@ class VersionList(MappableObject):
             initial_set or dict()
 
     def __len__(self):
+        self.ensure_mapped()
         return sum([len(path_dict) for path_dict in self.version_set.values()])
 
     def purge_impl(self):
-- 
2.43.0


From e93ea72ff21ac18d3756506916323926529fcfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 25/31] fix: save modifications of a loaded metadata root
 record in its version list, too

---
 dataladmetadatamodel/common.py      |  5 +++++
 dataladmetadatamodel/versionlist.py | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 9a8d97c..d8262c5 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -290,5 +290,10 @@ def get_metadata_root_record_from_top_nodes(
             time_stamp=str(time.time()),
             prefix_path=prefix_path,
             element=metadata_root_record)
+    else:
+        uuid_version_list.share_element(
+            primary_data_version=primary_data_version,
+            prefix_path=prefix_path,
+            element=metadata_root_record)
 
     return metadata_root_record
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index 86ff388..58e1421 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -159,6 +159,23 @@ class VersionList(MappableObject):
             )
             for version, version_record in self._iterate_version_records())
 
+    def share_element(self,
+                      primary_data_version: str,
+                      prefix_path: MetadataPath,
+                      element: Union[DatasetTree, MetadataRootRecord]):
+        """
+        Use `element` instead of the element of the given version, if the
+        latter refers to the same stored object and is not loaded. That means
+        modifications of `element` will also be saved with this list.
+        """
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
+        if not version_record.element.mapped \
+                and element.reference is not None \
+                and element.reference == version_record.element.reference:
+            version_record.element = element
+
     def set_versioned_element(self,
                               primary_data_version: str,
                               time_stamp: str,
-- 
2.43.0


From 1aa468961f332bb6bed73c996a85d1f6afedf533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 26/31] fix: split the output of git at line ends only

---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 4dcf71b..a66093c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -53,7 +53,17 @@ def checked_execute(arguments: Union[str, List[str]],
                     ) -> Tuple[List[str], List[str]]:
 
     stdout, stderr = checked_execute_raw(arguments, stdin_content)
-    return stdout.splitlines(), stderr.splitlines()
+    return _split_lines(stdout), _split_lines(stderr)
+
+
+def _split_lines(text: str) -> List[str]:
+    # Git ends lines with "\n". Do not use str.splitlines(), because it also
+    # splits at other characters, which might be part of unquoted names, if
+    # core.quotepath is set to false.
+    lines = text.split("\n")
+    if lines[-1] == "":
+        lines.pop()
+    return lines
 
 
 def git_command_line(repo_dir: str,
-- 
2.43.0


From 11caa265344de469257e577e53a005d2253a0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 27/31] fix: add_paths did not recognize existing entries with
 names that git quotes

---
 dataladmetadatamodel/mapper/gitmapper/treeupdater.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/treeupdater.py b/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
index bcd108b..41d2ef2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
+++ b/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
@@ -9,6 +9,7 @@ This is mainly used by the object reference system to efficiently store object
 references, by using prefixes of the object-hashes as "directory names", i.e. as
 tree reference names.
 """
+import codecs
 import logging
 from dataclasses import dataclass
 from enum import Enum
@@ -23,6 +24,7 @@ from typing import (
 
 from .gitbackend.subprocess import git_read_tree_node
 from .gitbackend.subprocess import git_save_tree_node
+from .mtreenodemapper import MTreeNodeGitMapper
 from .utils import split_git_lstree_line
 
 
@@ -50,7 +52,11 @@ class DirEntry:
         else:
             flag = "100644"
             entry_type = "blob"
-        return flag, entry_type, self.object_hash, self.name
+        return (
+            flag,
+            entry_type,
+            self.object_hash,
+            MTreeNodeGitMapper.escape_double_quotes(self.name))
 
 
 @dataclass
@@ -137,6 +143,9 @@ def _get_dir(repo: Path, object_hash: str) -> List:
     result = []
     for entry in git_read_tree_node(str(repo), object_hash):
         _, object_type, object_hash, name = split_git_lstree_line(entry)
+        if name.startswith('"'):
+            # Git quotes names with special characters
+            name = codecs.escape_decode(name[1:-1])[0].decode("utf-8")
         result.append(
             DirEntry(
                 type=EntryType.File
-- 
2.43.0


From 83ce84ead91194d1d582d25e4df23a67e76c87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 28/31] fix: use one lock for all spellings of the path of a
 store

---
 dataladmetadatamodel/mapper/gitmapper/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/utils.py b/dataladmetadatamodel/mapper/gitmapper/utils.py
index 1afff10..9a8f600 100644
--- a/dataladmetadatamodel/mapper/gitmapper/utils.py
+++ b/dataladmetadatamodel/mapper/gitmapper/utils.py
@@ -75,7 +75,8 @@ def unlock_backend(realm: Path):
 
 
 def get_lock_dir(realm: Path, create_directory: bool = True) -> Path:
-    lock_dir = realm / ".git"
+    # Use one lock for all spellings of the path of a realm
+    lock_dir = realm.resolve() / ".git"
     if not lock_dir.exists() and create_directory:
         # if exist_ok is False, we might get an error if
         # a concurrent mapper tries to lock the same
-- 
2.43.0


From 9b4d45662e4736dfad997c5ac5ee6078d95efb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:05 +0000
Subject: [PATCH 29/31] fix: keep the realm of an object whose saving to
 another realm failed

---
 dataladmetadatamodel/mappableobject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 59be7a4..2eaed5c 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -193,13 +193,12 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
+                self.realm = destination_realm
                 return self.reference
 
             logger.debug(
@@ -217,6 +216,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        # Only change the realm after the object was saved there. Otherwise
+        # the object could not be read in again, if saving failed.
+        self.realm = destination_realm
         self.set_saved_on(destination_realm)
         self.stored_sub_references = self._get_sub_references()
 
-- 
2.43.0


From 9540dcb631b7a69464fb8d27ce4abd769972a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:14 +0000
Subject: [PATCH 30/31] fix: do not consider outdated representations on other
 realms as saved

---
 dataladmetadatamodel/mappableobject.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 2eaed5c..589c732 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -216,11 +216,17 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        # If sub-objects are stored under new references, the representations
+        # of this object that were saved on other destinations are outdated.
+        sub_references = self._get_sub_references()
+        if self.stored_sub_references not in (None, sub_references):
+            self.set_unsaved()
+        self.stored_sub_references = sub_references
+
         # Only change the realm after the object was saved there. Otherwise
         # the object could not be read in again, if saving failed.
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
-        self.stored_sub_references = self._get_sub_references()
 
         assert isinstance(self.reference, Reference), \
             f"write_out({self}): object {self} has no valid " \
-- 
2.43.0


From b8d59c6c1a1c10b5eb668672608b205b307d4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:02 +0000
Subject: [PATCH 31/31] fix: load a list before one of its parts is unloaded

---
 dataladmetadatamodel/uuidset.py     | 1 +
 dataladmetadatamodel/versionlist.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 1e4173f..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -61,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index 58e1421..b12de15 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -205,7 +205,9 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
-        version_record = self.version_set[primary_data_version][prefix_path]
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
         version_record.element.write_out(new_destination)
         version_record.element.purge()
 
-- 
2.43.0

