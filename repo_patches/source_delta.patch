From ef9a5975f662a0a0860c889af0801a42529a5c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 01/40] fix: normalize metadata paths on Python >= 3.12

Since Python 3.12, PurePath.__init__() receives the original arguments, the
normalized path that MetadataPath.__new__() passes to its super class is
ignored. As a result absolute metadata paths were created.
---
 dataladmetadatamodel/metadatapath.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..d62aac1 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,10 +1,12 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
 
 
 class MetadataPath(PurePosixPath):
-    def __new__(cls, *args):
+    @staticmethod
+    def _relative_path_string(*args) -> str:
 
         posix_args = []
         for arg in args:
@@ -14,18 +16,23 @@ class MetadataPath(PurePosixPath):
 
         original_path = PurePosixPath(*posix_args)
         if not original_path.is_absolute():
-            created_path = super().__new__(
-                cls,
-                "/".join(original_path.parts))
+            return "/".join(original_path.parts)
         else:
             modified_path = "/".join(original_path.parts[1:])
-            created_path = super().__new__(cls, modified_path)
             logger.warning(
                 f"Denied creation of absolute metadata path: {original_path}, "
                 f"created {modified_path} instead. This is considered an error "
                 f"in the calling code.")
-
-        return created_path
+            return modified_path
+
+    # Since Python 3.12, pathlib evaluates the path segments in
+    # `__init__()`, and no longer in `__new__()`.
+    if sys.version_info >= (3, 12):
+        def __init__(self, *args):
+            super().__init__(self._relative_path_string(*args))
+    else:
+        def __new__(cls, *args):
+            return super().__new__(cls, cls._relative_path_string(*args))
 
     def __str__(self):
         path_str = PurePosixPath.__str__(self)
-- 
2.43.0


From e80823586abf961a40f067474cb6fd18c41c9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 02/40] fix: let FileTree.add_extractor_run() create missing
 metadata

FileTree.get_metadata() returns None for a path without metadata, it does not
raise an AttributeError.
---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From 38020618114c410f374f732ddb78d2df5a7c80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 03/40] fix: compare metadata instance sets with multiple
 configurations

ExtractorConfiguration objects have no order, i.e. they cannot be sorted.
Compare the instances that are associated with the individual configurations
instead.
---
 dataladmetadatamodel/metadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..984aec2 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,12 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        return len(self.parameter_set) == len(other.parameter_set) \
+               and all(
+                    configuration in other.parameter_set
+                    and self._instances.get(index) == other._instances.get(
+                        other.parameter_set.index(configuration))
+                    for index, configuration in enumerate(self.parameter_set))
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From 115a54d944d9770ffddaae9724733c0b68f16145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 04/40] fix: support metadata root records without
 dataset-level metadata

Purging such a record, and fetching its dataset-level metadata, raised an
AttributeError.
---
 dataladmetadatamodel/metadatarootrecord.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..93933c7 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,10 +45,10 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
         if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
             self.dataset_level_metadata = None
         self._file_tree = None
 
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From d5a3385191e4cd381056fd33aa7439d91c0309b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 05/40] fix: hash extractor configurations with nested
 parameters

Parameters are JSON values, so they might be lists or dictionaries, which are
not hashable.
---
 dataladmetadatamodel/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 984aec2..3f36dbe 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -21,7 +21,8 @@ from dataladmetadatamodel.mapper.reference import Reference
 
 class ParameterDict(dict):
     def __hash__(self):
-        return hash(tuple(sorted(self.items())))
+        # The values are JSON objects and might therefore be unhashable
+        return hash(frozenset(self.keys()))
 
 
 class ExtractorConfiguration:
-- 
2.43.0


From 4b0f26f5274521c452ede16ca32029cc622a0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 06/40] fix: write empty git trees

An empty list of tree entries, e.g. of an empty UUID set, resulted in a blank
line in the input of "git mktree", which is rejected by git.
---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..121d272 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -150,10 +150,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -161,10 +161,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From 5af0238dc6572f9ad03fc69b24fbd0594545c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 07/40] fix: map a UUID set before setting a version list

Setting a version list in an unmapped UUID set left the set in an unmapped and
unsaved state, so that it could neither be read nor be written.
---
 dataladmetadatamodel/uuidset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..1e4173f 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
-- 
2.43.0


From bf3ac3cbb9959489241e3d629c8f4d95ffc0b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 08/40] fix: return the correct length of an unmapped version
 list

---
 dataladmetadatamodel/versionlist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..86ff388 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -60,6 +60,7 @@ class VersionList(MappableObject):
             initial_set or dict()
 
     def __len__(self):
+        self.ensure_mapped()
         return sum([len(path_dict) for path_dict in self.version_set.values()])
 
     def purge_impl(self):
-- 
2.43.0


From a18def2b5ce8f2ee0018901f8c79cfa524139832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 09/40] fix: return a tree version list reference from the
 respective mapper

The mapper returned a reference to a VersionList, therefore a TreeVersionList
could not be read in again after it was written and purged.
---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f39c695 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -111,4 +111,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From 29898c8129fc0b7c9d9294ff4d69871190d59ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 10/40] fix: write trees that contain empty sub-trees

The location of a None-reference was written to the entries of the parent
tree, which was rejected by git. Since git trees cannot represent empty
directories, skip them.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..30e9ed1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -70,7 +70,11 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            if not child_node.reference.is_none_reference()
         ]
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
+
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From 5ed16f18559e1ebdb4c7bcd57d581ce36d11b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 11/40] fix: quote line feeds in git tree entry names

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 30e9ed1..f8f02c2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -80,12 +80,13 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        if '"' in input_string or '\n' in input_string:
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
                 + '"'
             )
         else:
-- 
2.43.0


From bc02ec8084deda7983ad5192d0a4c3b7bdc5747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 12/40] fix: save unmapped objects without an explicit
 destination

If no destination was given, an unmapped object was reported as lost, although
it was saved on its realm.
---
 dataladmetadatamodel/mappableobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..deab2bf 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -137,6 +137,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         from dataladmetadatamodel.mapper import get_mapper
 
+        if self.realm:
+            destination_realm = destination_realm or self.realm
+
         # If the object is not mapped and not modified,
         # we do not have to do anything.
         if not self.mapped:
@@ -158,9 +161,6 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f" saved on {destination_realm}")
             return self.reference
 
-        if self.realm:
-            destination_realm = destination_realm or self.realm
-
         assert destination_realm is not None, \
             f"write_out({self}): no destination available for {self}"
 
-- 
2.43.0


From 87b51f9001659f9c4df1c1d3b7fc7b999daa11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 13/40] fix: treat None-references as saved

An object that is loaded from a None-reference, e.g. an empty dataset tree in a
version list, was regarded as unsaved. Containers of such objects could neither
be written nor copied.
---
 dataladmetadatamodel/mappableobject.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index deab2bf..4ec35fe 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -59,7 +59,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # saved in the location given by the reference.
         super().__init__(
             realm
-            if reference is not None and not reference.is_none_reference()
+            if reference is not None
             else None
         )
 
@@ -151,6 +151,10 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out: object {self} has no valid " \
                 f"reference: {self.reference}"
 
+            # There is nothing to save for a None-reference
+            if self.reference.is_none_reference():
+                return self.reference
+
             if not self.is_saved_on(destination_realm):
                 raise RuntimeError(
                     f"write_out({self}): modified object got lost "
-- 
2.43.0


From b048b17e14380628224d637f0072e8c1f4774a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 14/40] fix: keep the realm of an object, if the object could
 not be written

A failed write left the object associated with the new realm. If the object was
saved on its previous realm, it could be purged, but not be read in again.
---
 dataladmetadatamodel/mappableobject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 4ec35fe..da7f16e 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -173,10 +173,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
+                self.realm = destination_realm
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
@@ -197,6 +196,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        self.realm = destination_realm
         self.set_saved_on(destination_realm)
 
         assert isinstance(self.reference, Reference), \
-- 
2.43.0


From 796e159e372060d57dc0bb3cc87b99a3f0362173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:44 +0000
Subject: [PATCH 15/40] fix: do not regard an object with changed sub-objects
 as saved

If a sub-object was modified and written out on its own, e.g. by one of the
unget-methods, or by an attempt to write the containing object that failed
later, the containing object was still regarded as saved. It kept the reference
to the old version of the sub-object, and the modification got lost when the
containing object was written or purged.
---
 dataladmetadatamodel/mappableobject.py | 32 +++++++++++++++++++++++++-
 dataladmetadatamodel/mtreeproxy.py     |  4 ++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index da7f16e..63b0113 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -5,6 +5,7 @@ from abc import (
 from contextlib import contextmanager
 from typing import (
     Iterable,
+    List,
     Optional,
 )
 
@@ -66,6 +67,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.realm = realm
         self.reference = reference
         self.mapped = reference is None
+        self.saved_sub_object_locations = []
 
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
@@ -84,6 +86,32 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # delegate to our subclasses
         return self.modifiable_sub_objects_impl()
 
+    def get_sub_object_locations(self) -> List[Optional[str]]:
+        return [
+            getattr(
+                getattr(sub_object, "reference", None),
+                "location",
+                None)
+            for sub_object in self.modifiable_sub_objects
+        ]
+
+    def has_changed_sub_objects(self) -> bool:
+        """
+        Check whether sub-objects were stored in a new location
+        since this object was read or written. In this case the
+        persisted version of this object is outdated, even if all
+        sub-objects are saved.
+        """
+        return (
+            self.mapped
+            and self.get_sub_object_locations()
+            != self.saved_sub_object_locations)
+
+    def is_saved_on(self, destination: str) -> bool:
+        return (
+            super().is_saved_on(destination)
+            and not self.has_changed_sub_objects())
+
     def read_in(self,
                 backend_type: str = "git"
                 ) -> "MappableObject":
@@ -122,6 +150,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.saved_sub_object_locations = self.get_sub_object_locations()
 
         else:
 
@@ -198,6 +227,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
+        self.saved_sub_object_locations = self.get_sub_object_locations()
 
         assert isinstance(self.reference, Reference), \
             f"write_out({self}): object {self} has no valid " \
@@ -208,7 +238,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            if len(self.saved_on) == 0 or self.has_changed_sub_objects():
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..6442318 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -50,6 +50,10 @@ class MTreeProxy:
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def ensure_mapped(self) -> bool:
         return self.mtree.ensure_mapped()
 
-- 
2.43.0


From 0210eb6ad2ac3a022980c09bd19d35ddbb576982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 16/40] fix: forget outdated copies of a rewritten object

If sub-objects of an object that is saved on multiple realms were modified, and
the object was written to one of the realms only, the object was afterwards
still regarded as saved on the other realms.
---
 dataladmetadatamodel/mappableobject.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 63b0113..7fed0bc 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -218,13 +218,18 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): calling map_out to save {self} "
             f"to {destination_realm}")
 
-        self.reference = get_mapper(
+        reference = get_mapper(
             type(self).__name__,
             backend_type).map_out(
                 self,
                 destination_realm,
                 force_write)
 
+        # Copies on other realms are outdated, if the object changed
+        if self.reference is not None and self.reference != reference:
+            self.set_unsaved()
+
+        self.reference = reference
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
         self.saved_sub_object_locations = self.get_sub_object_locations()
-- 
2.43.0


From 1f2c09591b931f0ada0bf50b00450d2dee4a12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 17/40] fix: load strings without changing their line endings

Strings were loaded line-wise, with any kind of line separator replaced by a
line feed, and without trailing line separators.
---
 .../mapper/gitmapper/gitbackend/subprocess.py | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 121d272..6098a06 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -29,9 +29,9 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
-def checked_execute(arguments: Union[str, List[str]],
-                    stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+def checked_execute_raw(arguments: Union[str, List[str]],
+                        stdin_content: Optional[Union[str, bytes]] = None
+                        ) -> Tuple[str, str]:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -45,9 +45,17 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
+    return result.stdout.decode(), result.stderr.decode()
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    stdout, stderr = checked_execute_raw(arguments, stdin_content)
     return (
-        result.stdout.decode().splitlines(),
-        result.stderr.decode().splitlines())
+        stdout.splitlines(),
+        stderr.splitlines())
 
 
 def git_command_line(repo_dir: str,
@@ -65,8 +73,7 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    return checked_execute_raw(cmd_line)[0]
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From 4c073bd22fd7086190a1fae20f3db01aa16bcd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 18/40] fix: split git output at line feeds only

str.splitlines() splits at a number of other characters as well, e.g. at U+0085
or U+2028. With core.quotepath set to false, those show up verbatim in the names
of git tree entries.
---
 .../mapper/gitmapper/gitbackend/subprocess.py         | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 6098a06..e7cdbd3 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -54,8 +54,15 @@ def checked_execute(arguments: Union[str, List[str]],
 
     stdout, stderr = checked_execute_raw(arguments, stdin_content)
     return (
-        stdout.splitlines(),
-        stderr.splitlines())
+        split_lines(stdout),
+        split_lines(stderr))
+
+
+def split_lines(text: str) -> List[str]:
+    # Do not use `splitlines()` because it splits not only at line feeds,
+    # but also at other characters that might be part of a name.
+    lines = text.split("\n")
+    return lines if lines[-1] else lines[:-1]
 
 
 def git_command_line(repo_dir: str,
-- 
2.43.0


From 714935059dbd5a6ea7e1b083502f73cb37ddd000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 19/40] fix: copy the content of text objects

---
 dataladmetadatamodel/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..3ac7858 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,6 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
         return copied_text
-- 
2.43.0


From 25a6b88f4bdd024514edcb5aa25dd28059f127e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 20/40] fix: cache binary blobs

Binary blobs were accepted by the blob cache, but could not be flushed.
---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index a0fa835..aee8a32 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -73,8 +73,8 @@ class GitBlobCache:
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-            with temp_file_path.open("tw") as f:
-                f.write(blob)
+            with temp_file_path.open("bw") as f:
+                f.write(blob.encode() if isinstance(blob, str) else blob)
             file_list.append(str(temp_file_path))
 
         hash_values = git_save_file_list(self.realm, file_list)
-- 
2.43.0


From 6055e92eeedebde4f4201b34557d80c7cde60d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 21/40] fix: pass repository paths safely to git in
 LocalGitMetadataSource

Repository paths were put unquoted into a shell command. Repositories with white
space or shell meta characters in their path could not be used.
---
 dataladmetadatamodel/metadatasource.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..69ad052 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -94,9 +94,10 @@ class LocalGitMetadataSource(MetadataSource):
             and self.object_reference == other.object_reference)
 
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = [
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference]
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +109,15 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
+        content = subprocess.check_output([
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference])
         copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+            [
+                "git", "--git-dir", str(destination_repository / ".git"),
+                "hash-object", "-w", "--stdin"
+            ],
+            input=content).decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 94082fb4893dacb30f0544c4ddcd5d29918515f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 22/40] fix: use one lock per realm, independent of the
 spelling of its path

Nested locks of the same realm, that used different spellings of its path, e.g.
a relative and an absolute path, used individual lock objects for the same lock
file. The release of the inner lock released the outer lock as well.
---
 dataladmetadatamodel/mapper/gitmapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/utils.py b/dataladmetadatamodel/mapper/gitmapper/utils.py
index 1afff10..7a72bd8 100644
--- a/dataladmetadatamodel/mapper/gitmapper/utils.py
+++ b/dataladmetadatamodel/mapper/gitmapper/utils.py
@@ -75,7 +75,7 @@ def unlock_backend(realm: Path):
 
 
 def get_lock_dir(realm: Path, create_directory: bool = True) -> Path:
-    lock_dir = realm / ".git"
+    lock_dir = realm.resolve() / ".git"
     if not lock_dir.exists() and create_directory:
         # if exist_ok is False, we might get an error if
         # a concurrent mapper tries to lock the same
-- 
2.43.0


From 1ce29b03c2d0528cae7201e614d2894b097813b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 23/40] fix: load existing top-level objects independently

If only one of tree version list and UUID set existed in a realm, e.g. because
a process was interrupted after writing the first of them, the existing one was
ignored. With auto_create, it was then replaced by a new, empty object.
---
 dataladmetadatamodel/common.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..1847c01 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -39,6 +39,14 @@ def _get_uuid_set_reference(
         location)
 
 
+def _read_in_if_exists(top_level_object: Union[TreeVersionList, UUIDSet]
+                       ) -> Optional[Union[TreeVersionList, UUIDSet]]:
+    try:
+        return top_level_object.read_in()
+    except RuntimeError:
+        return None
+
+
 def get_top_level_metadata_objects(
         mapper_family: str,
         realm: Union[str, Path]
@@ -69,10 +77,9 @@ def get_top_level_metadata_objects(
             realm,
             get_uuid_set_location(mapper_family)))
 
-    try:
-        return tree_version_list.read_in(), uuid_set.read_in()
-    except RuntimeError:
-        return None, None
+    return (
+        _read_in_if_exists(tree_version_list),
+        _read_in_if_exists(uuid_set))
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From ceabb60c4522ea5cab2fd40fa3785ce12638e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 24/40] fix: do not regard unreadable top-level objects as
 missing

A failure to read an existing top-level object was handled as if the object
would not exist. With auto_create, all stored metadata was then replaced by new,
empty top-level objects.
---
 dataladmetadatamodel/common.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 1847c01..f784a40 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -20,6 +20,9 @@ from dataladmetadatamodel.versionlist import (
     TreeVersionList,
     VersionList,
 )
+from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+    git_object_exists_locally,
+)
 from dataladmetadatamodel.mapper.reference import Reference
 
 
@@ -44,6 +47,10 @@ def _read_in_if_exists(top_level_object: Union[TreeVersionList, UUIDSet]
     try:
         return top_level_object.read_in()
     except RuntimeError:
+        if git_object_exists_locally(
+                top_level_object.realm,
+                top_level_object.reference.location):
+            raise
         return None
 
 
-- 
2.43.0


From 838b18684877ff71e58a8e091511dddc808a964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 25/40] fix: do not drop object references, if they cannot be
 read

A failure to read the existing object references was handled as if there were
no object references. All existing references were dropped in this case.
---
 dataladmetadatamodel/mapper/gitmapper/objectreference.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..99aacc0 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -92,7 +92,10 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 def flush_object_references(realm: Path):
     global cached_object_references
 
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import (
+        git_object_exists_locally,
+        git_update_ref,
+    )
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -120,6 +123,10 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                if git_object_exists_locally(
+                        str(realm),
+                        GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From 9adae0892bfd7f4c907157b0ea5ae43ff9f6eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 26/40] fix: add object references for metadata root records in
 version lists

Metadata root records that are not part of a dataset tree, were only referenced
from the JSON content of a version list blob. They were lost when git performed
a garbage collection.
---
 .../mapper/gitmapper/versionlistmapper.py     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f39c695..c387ae2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -1,13 +1,29 @@
+from typing import Union
+
 from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_load_json,
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    GitReference,
+    add_blob_reference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
 
+def _write_element(element: Union["DatasetTree", "MetadataRootRecord"],
+                   realm: str) -> Reference:
+
+    reference = element.write_out(realm)
+    # Dataset trees add their references themselves, metadata root record
+    # blobs might only be referenced by the version list.
+    if reference.class_name == "MetadataRootRecord":
+        add_blob_reference(reference.location)
+    return reference
+
+
 class VersionListGitMapper(Mapper):
     """
     Map version lists to git objects.
@@ -76,7 +92,7 @@ class VersionListGitMapper(Mapper):
                 "primary_data_version": primary_data_version,
                 "time_stamp": version_record.time_stamp,
                 "path": version_record.prefix_path.as_posix(),
-                "dataset_tree": version_record.element.write_out(realm).to_json_obj()
+                "dataset_tree": _write_element(version_record.element, realm).to_json_obj()
             }
             for primary_data_version, prefix_set in version_list.version_set.items()
             for version_record in prefix_set.values()
-- 
2.43.0


From b3273bc8fff5b9ead8b425368907e97f213bf163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 27/40] fix: keep the blob cache consistent, if a file tree
 cannot be written

If writing a file tree failed, its realm remained cached. All further attempts
to write a file tree to the realm failed, and metadata that was written there
was never flushed. In addition, if flushing the cache failed, the file tree and
its metadata were nevertheless regarded as saved.
---
 .../mapper/gitmapper/gitblobcache.py          |  4 +++
 .../mapper/gitmapper/metadatamapper.py        |  4 +++
 dataladmetadatamodel/mtreeproxy.py            | 27 ++++++++++++++-----
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index aee8a32..b591512 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -55,6 +55,10 @@ class GitBlobCache:
         self.cached_objects.append((blob, expected_hash))
         return expected_hash
 
+    def discard(self):
+        """ Drop all cached objects that have not been flushed """
+        self.cached_objects = []
+
     def flush(self):
         """
         Write all cached objects to a git repository,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..56c7ec2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -33,6 +33,10 @@ class MetadataGitMapper(Mapper):
         cache.flush()
         del cls.metadata_caches[realm]
 
+    @classmethod
+    def discard_realm(cls, realm: str):
+        cls.metadata_caches.pop(realm).discard()
+
     def map_in_impl(self,
                     metadata: "Metadata",
                     realm: str,
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 6442318..f3b828a 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -17,6 +17,13 @@ from dataladmetadatamodel.mtreenode import MTreeNode
 from dataladmetadatamodel.mapper.reference import Reference
 
 
+def _set_all_unsaved(mappable_object: MappableObject):
+    if mappable_object.mapped:
+        for sub_object in mappable_object.modifiable_sub_objects:
+            _set_all_unsaved(sub_object)
+        mappable_object.set_unsaved()
+
+
 class MTreeProxy:
     """
     Base class for all classes that use MTreeNode internally,
@@ -77,12 +84,20 @@ class MTreeProxy:
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
 
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+        try:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
+        finally:
+            if isinstance(self, FileTree):
+                try:
+                    MetadataGitMapper.flush_realm(cache_destination)
+                except BaseException:
+                    # Objects that were only written to the
+                    # cache are not saved.
+                    MetadataGitMapper.discard_realm(cache_destination)
+                    _set_all_unsaved(self.mtree)
+                    raise
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location)
-- 
2.43.0


From e96b100c6a0940b7c7c32fc72193300414437dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 28/40] fix: store object references in the realm that contains
 the objects

Object references were cached without the realm to which the objects had been
written, all cached references were then stored in the first realm that was
flushed. If objects had been written to more than one realm, that realm received
references to objects that it did not contain, which breaks git garbage
collection, while the objects in the other realms were not protected from it.
---
 .../mapper/gitmapper/metadatamapper.py        |  4 +-
 .../gitmapper/metadatarootrecordmapper.py     |  6 +-
 .../mapper/gitmapper/objectreference.py       | 55 +++++++++++++++----
 .../mapper/gitmapper/versionlistmapper.py     |  2 +-
 dataladmetadatamodel/mtreeproxy.py            |  2 +-
 5 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index 56c7ec2..a7fbf2e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -79,7 +79,7 @@ class MetadataGitMapper(Mapper):
         # JSON-strings that are stored in the
         # repository.
         metadata_blob_location = git_save_str(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         # Save reference. NB we don't add the metadata reference to the object
         # tree here. Our "owner" will do that if necessary. For example, the
@@ -109,7 +109,7 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..7ab827e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -76,7 +76,7 @@ class MetadataRootRecordGitMapper(Mapper):
                 "git",
                 force_write)
             if not file_tree_reference.is_none_reference():
-                add_tree_reference(file_tree_reference.location)
+                add_tree_reference(file_tree_reference.location, realm)
 
         if mrr.dataset_level_metadata is None:
             dataset_level_metadata_reference = Reference.get_none_reference("Metadata")
@@ -85,7 +85,9 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm,
                 "git",
                 force_write)
-            add_blob_reference(dataset_level_metadata_reference.location)
+            add_blob_reference(
+                dataset_level_metadata_reference.location,
+                realm)
 
         json_object = {
             Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index 99aacc0..f1fcac5 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -2,8 +2,11 @@ import enum
 import logging
 from pathlib import Path
 from typing import (
+    Dict,
+    Optional,
     Set,
     Tuple,
+    Union,
 )
 
 from ...mapper.reference import none_location
@@ -15,6 +18,10 @@ logger = logging.getLogger("datalad.metalad.gitmapper.objectreference")
 
 cached_object_references: Set[Tuple[EntryType, str]] = set()
 
+# The realms in which the cached object references have to be stored. A cached
+# reference without an entry here, is stored in any realm that is flushed.
+cached_reference_realms: Dict[Tuple[EntryType, str], Set[Path]] = dict()
+
 
 class GitReference(enum.Enum):
     TREE_VERSION_LIST = "refs/datalad/dataset-tree-version-list"
@@ -28,13 +35,38 @@ checked_legacy_stores = set()
 
 
 def add_object_reference(entry_type: EntryType,
-                         object_hash: str):
+                         object_hash: str,
+                         realm: Optional[Union[str, Path]] = None):
 
     if object_hash == none_location:
         logger.warning("attempt to add a None-reference")
         return
 
     cached_object_references.add((entry_type, object_hash))
+    if realm is not None:
+        cached_reference_realms.setdefault(
+            (entry_type, object_hash),
+            set()
+        ).add(Path(realm).resolve())
+
+
+def get_cached_references_for(realm: Path) -> Set[Tuple[EntryType, str]]:
+    return {
+        reference
+        for reference in cached_object_references
+        if reference not in cached_reference_realms
+        or realm.resolve() in cached_reference_realms[reference]
+    }
+
+
+def remove_cached_references(realm: Path,
+                             references: Set[Tuple[EntryType, str]]):
+    for reference in references:
+        realms = cached_reference_realms.get(reference, set())
+        realms.discard(realm.resolve())
+        if not realms:
+            cached_reference_realms.pop(reference, None)
+            cached_object_references.discard(reference)
 
 
 def add_legacy_store_entries_from(realm: Path,
@@ -52,7 +84,7 @@ def add_legacy_store_entries_from(realm: Path,
                     f"{reference.value}) to new format")
 
         for entry in legacy_entries:
-            cached_object_references.add((entry_type, entry[2]))
+            add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
         return False
@@ -90,8 +122,6 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    global cached_object_references
-
     from .gitbackend.subprocess import (
         git_object_exists_locally,
         git_update_ref,
@@ -105,7 +135,8 @@ def flush_object_references(realm: Path):
 
     legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)
 
-    if cached_object_references:
+    references = get_cached_references_for(realm)
+    if references:
         path_infos = [
             PathInfo(
                 [
@@ -116,7 +147,7 @@ def flush_object_references(realm: Path):
                 ],
                 object_hash,
                 entry_type)
-            for entry_type, object_hash in cached_object_references
+            for entry_type, object_hash in references
         ]
 
         with locked_backend(realm):
@@ -132,7 +163,7 @@ def flush_object_references(realm: Path):
             tree_hash = add_paths(realm, path_infos, root_entries)
             git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)
 
-        cached_object_references = set()
+        remove_cached_references(realm, references)
 
     if legacy_trees_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)
@@ -140,12 +171,14 @@ def flush_object_references(realm: Path):
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
 
-def add_tree_reference(object_hash: str):
-    add_object_reference(EntryType.Directory, object_hash)
+def add_tree_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.Directory, object_hash, realm)
 
 
-def add_blob_reference(object_hash: str):
-    add_object_reference(EntryType.File, object_hash)
+def add_blob_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.File, object_hash, realm)
 
 
 def remove_object_reference(*args, **kwargs):
diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index c387ae2..1276e2e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -20,7 +20,7 @@ def _write_element(element: Union["DatasetTree", "MetadataRootRecord"],
     # Dataset trees add their references themselves, metadata root record
     # blobs might only be referenced by the version list.
     if reference.class_name == "MetadataRootRecord":
-        add_blob_reference(reference.location)
+        add_blob_reference(reference.location, realm)
     return reference
 
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index f3b828a..3a02eb1 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -100,7 +100,7 @@ class MTreeProxy:
                     raise
 
         if not reference.is_none_reference():
-            add_tree_reference(reference.location)
+            add_tree_reference(reference.location, cache_destination)
         return reference
 
     def purge(self):
-- 
2.43.0


From 7e367150ea120243e1e2de461ae072b9becf1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 29/40] fix: keep dataset tree and UUID set entries of a record
 in sync

A metadata root record that is loaded through the dataset tree, and the entry
for the same record in the version list of the UUID set were represented by
individual objects. If the record was modified, the UUID set kept on referring
to the unmodified version of the record.
---
 dataladmetadatamodel/common.py      |  5 +++++
 dataladmetadatamodel/versionlist.py | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index f784a40..b38e20d 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -283,5 +283,10 @@ def get_metadata_root_record_from_top_nodes(
             time_stamp=str(time.time()),
             prefix_path=prefix_path,
             element=metadata_root_record)
+    else:
+        uuid_version_list.share_element(
+            primary_data_version,
+            prefix_path,
+            metadata_root_record)
 
     return metadata_root_record
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index 86ff388..81c7753 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -178,6 +178,26 @@ class VersionList(MappableObject):
             prefix_path,
             element)
 
+    def share_element(self,
+                      primary_data_version: str,
+                      prefix_path: MetadataPath,
+                      element: Union[DatasetTree, MetadataRootRecord]):
+        """
+        Use the given object to represent the versioned element, if both
+        are unmodified representations of the same stored element. Later
+        modifications of the given object will then be contained in this
+        list as well.
+        """
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
+        if (
+                element.reference is not None
+                and element.reference == version_record.element.reference
+                and element.realm == version_record.element.realm
+                and not version_record.element.mapped):
+            version_record.element = element
+
     def unget_versioned_element(self,
                                 primary_data_version: str,
                                 prefix_path: MetadataPath,
-- 
2.43.0


From fc3e6f9fbbc4aca307b5b132b3d5093712f0e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 30/40] fix: keep emptied trees usable after they were dropped

A tree that contains only empty sub-trees is stored as None-reference. If
it was dropped from memory, the list of its stored sub-objects remained
set, and the object was considered changed when it was accessed again.
---
 dataladmetadatamodel/mappableobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 7fed0bc..24fa251 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -249,6 +249,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             self.purge_impl()
             self.mapped = False
+            self.saved_sub_object_locations = []
 
     def ensure_mapped(self,
                       backend_type="git") -> bool:
-- 
2.43.0


From 34f543e16683c1fbfdf127050b1f9312dd9ee881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 31/40] fix: do not create version list entries in lookups
 without auto_create

A lookup of a record that exists in the dataset tree, but not in the version
list of its dataset id, added an entry to the version list, although
`auto_create` was False.
---
 dataladmetadatamodel/common.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index b38e20d..d5f8e24 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -231,7 +231,10 @@ def get_metadata_root_record_from_top_nodes(
         else:
             root_mrr = dataset_tree.get_metadata_root_record(MetadataPath(""))
 
-        if (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
+        if (
+                auto_create
+                and (root_dataset_version, prefix_path)
+                not in root_uuid_version_list.versions_and_prefix_paths()):
             root_uuid_version_list.set_versioned_element(
                 primary_data_version=root_dataset_version,
                 time_stamp=str(time.time()),
@@ -277,16 +280,16 @@ def get_metadata_root_record_from_top_nodes(
         metadata_root_record = dataset_tree.get_metadata_root_record(
             dataset_tree_path)
 
-    if (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
+    if (primary_data_version, prefix_path) in uuid_version_list.versions_and_prefix_paths():
+        uuid_version_list.share_element(
+            primary_data_version,
+            prefix_path,
+            metadata_root_record)
+    elif auto_create:
         uuid_version_list.set_versioned_element(
             primary_data_version=primary_data_version,
             time_stamp=str(time.time()),
             prefix_path=prefix_path,
             element=metadata_root_record)
-    else:
-        uuid_version_list.share_element(
-            primary_data_version,
-            prefix_path,
-            metadata_root_record)
 
     return metadata_root_record
-- 
2.43.0


From c8a42ea479a82216ec93cbd8c7b18a8c9f105a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 32/40] fix: handle quoted names in the tree updater

---
 .../mapper/gitmapper/treeupdater.py           | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/treeupdater.py b/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
index bcd108b..0a94467 100644
--- a/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
+++ b/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
@@ -9,6 +9,7 @@ This is mainly used by the object reference system to efficiently store object
 references, by using prefixes of the object-hashes as "directory names", i.e. as
 tree reference names.
 """
+import codecs
 import logging
 from dataclasses import dataclass
 from enum import Enum
@@ -50,7 +51,7 @@ class DirEntry:
         else:
             flag = "100644"
             entry_type = "blob"
-        return flag, entry_type, self.object_hash, self.name
+        return flag, entry_type, self.object_hash, _quote_name(self.name)
 
 
 @dataclass
@@ -133,6 +134,25 @@ def _check_entries_validity(leaf_infos: List[PathInfo],
     _check_leaf_uniqueness(leaf_infos)
 
 
+def _quote_name(name: str) -> str:
+    """Quote names that git mktree would otherwise not read literally"""
+    if '"' in name or '\n' in name:
+        escaped_name = (
+            name
+            .replace('\\', '\\\\')
+            .replace('"', '\\"')
+            .replace('\n', '\\n'))
+        return f'"{escaped_name}"'
+    return name
+
+
+def _unquote_name(name: str) -> str:
+    """Undo the quoting of special names in the output of git cat-file"""
+    if name.startswith('"'):
+        return codecs.escape_decode(name[1:-1])[0].decode("utf-8")
+    return name
+
+
 def _get_dir(repo: Path, object_hash: str) -> List:
     result = []
     for entry in git_read_tree_node(str(repo), object_hash):
@@ -143,7 +163,7 @@ def _get_dir(repo: Path, object_hash: str) -> List:
                 if object_type == "blob"
                 else EntryType.Directory,
                 object_hash=object_hash,
-                name=name))
+                name=_unquote_name(name)))
     return result
 
 
-- 
2.43.0


From 536d50a918b4a0bb36e4b1c5e0ab627fd1b71cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 33/40] fix: keep object references that were added with and
 without realm

---
 .../mapper/gitmapper/objectreference.py       | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index f1fcac5..620a9d0 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -19,8 +19,12 @@ logger = logging.getLogger("datalad.metalad.gitmapper.objectreference")
 cached_object_references: Set[Tuple[EntryType, str]] = set()
 
 # The realms in which the cached object references have to be stored. A cached
-# reference without an entry here, is stored in any realm that is flushed.
-cached_reference_realms: Dict[Tuple[EntryType, str], Set[Path]] = dict()
+# reference without an entry here, or with the entry `None`, is stored in the
+# next realm that is flushed.
+cached_reference_realms: Dict[
+    Tuple[EntryType, str],
+    Set[Optional[Path]]
+] = dict()
 
 
 class GitReference(enum.Enum):
@@ -43,19 +47,17 @@ def add_object_reference(entry_type: EntryType,
         return
 
     cached_object_references.add((entry_type, object_hash))
-    if realm is not None:
-        cached_reference_realms.setdefault(
-            (entry_type, object_hash),
-            set()
-        ).add(Path(realm).resolve())
+    cached_reference_realms.setdefault(
+        (entry_type, object_hash),
+        set()
+    ).add(None if realm is None else Path(realm).resolve())
 
 
 def get_cached_references_for(realm: Path) -> Set[Tuple[EntryType, str]]:
     return {
         reference
         for reference in cached_object_references
-        if reference not in cached_reference_realms
-        or realm.resolve() in cached_reference_realms[reference]
+        if cached_reference_realms.get(reference, {None}) & {None, realm.resolve()}
     }
 
 
@@ -63,7 +65,7 @@ def remove_cached_references(realm: Path,
                              references: Set[Tuple[EntryType, str]]):
     for reference in references:
         realms = cached_reference_realms.get(reference, set())
-        realms.discard(realm.resolve())
+        realms -= {None, realm.resolve()}
         if not realms:
             cached_reference_realms.pop(reference, None)
             cached_object_references.discard(reference)
-- 
2.43.0


From c99021e89dc4a18d41d80cd21e7a2a66aa406bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 34/40] fix: raise an error, if the existence of a reference
 cannot be determined

---
 dataladmetadatamodel/common.py                |  4 +--
 .../mapper/gitmapper/gitbackend/subprocess.py | 26 +++++++++++++++++++
 .../mapper/gitmapper/objectreference.py       |  4 +--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index d5f8e24..707305a 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -21,7 +21,7 @@ from dataladmetadatamodel.versionlist import (
     VersionList,
 )
 from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
-    git_object_exists_locally,
+    git_reference_exists,
 )
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -47,7 +47,7 @@ def _read_in_if_exists(top_level_object: Union[TreeVersionList, UUIDSet]
     try:
         return top_level_object.read_in()
     except RuntimeError:
-        if git_object_exists_locally(
+        if git_reference_exists(
                 top_level_object.realm,
                 top_level_object.reference.location):
             raise
diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index e7cdbd3..330c724 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -1,6 +1,7 @@
 import json
 import shlex
 import subprocess
+from pathlib import Path
 from typing import (
     Any,
     Dict,
@@ -117,6 +118,31 @@ def git_object_exists_locally(repo_dir: str,
     return execute(cmd_line).returncode == 0
 
 
+def git_reference_exists(repo_dir: str,
+                         ref_name: str) -> bool:
+    """
+    Check for the existence of a reference. In contrast to
+    git_object_exists_locally(), a failing git command is reported as error.
+    """
+    if Reference.is_remote(repo_dir):
+        return ref_name in [
+            line.split("\t")[-1]
+            for line in checked_execute(
+                ["git", "-P", "ls-remote", repo_dir, ref_name])[0]
+        ]
+
+    git_dir = Path(repo_dir, ".git")
+    if not git_dir.is_file() and not (git_dir / "objects").exists():
+        # This is not a git repository
+        return False
+
+    cmd_line = git_command_line(
+        repo_dir,
+        "for-each-ref",
+        ["--format=%(refname)", ref_name])
+    return ref_name in checked_execute(cmd_line)[0]
+
+
 def git_read_tree_node(repo_dir: str,
                        object_reference: str) -> List[str]:
     repo_dir = adapt_for_remote(repo_dir, object_reference)
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index 620a9d0..2419e3a 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -125,7 +125,7 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 def flush_object_references(realm: Path):
     from .gitbackend.subprocess import (
-        git_object_exists_locally,
+        git_reference_exists,
         git_update_ref,
     )
     from ..gitmapper.treeupdater import (
@@ -156,7 +156,7 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
-                if git_object_exists_locally(
+                if git_reference_exists(
                         str(realm),
                         GitReference.OBJECT_REFERENCES.value):
                     raise
-- 
2.43.0


From 96561566aca942ccc9530feb825fc2fffd386492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 35/40] fix: compare the content of unmapped metadata objects

---
 dataladmetadatamodel/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 3f36dbe..4a95629 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -241,6 +241,8 @@ class Metadata(MappableObject):
         self.instance_sets: Dict[str, MetadataInstanceSet] = dict()
 
     def __eq__(self, other):
+        self.ensure_mapped()
+        other.ensure_mapped()
         return self.instance_sets == other.instance_sets
 
     @staticmethod
-- 
2.43.0


From be323947935460ee851f27746bb5f33b990f3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 36/40] fix: map version lists and UUID sets before elements
 are given back

---
 dataladmetadatamodel/uuidset.py     | 1 +
 dataladmetadatamodel/versionlist.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 1e4173f..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -61,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index 81c7753..ece1d95 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -208,7 +208,9 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
-        version_record = self.version_set[primary_data_version][prefix_path]
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
         version_record.element.write_out(new_destination)
         version_record.element.purge()
 
-- 
2.43.0


From adadf4ef8c709fbdfe74de9d8e6eb251a2464635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 37/40] fix: look up records whose id refers to a new record

---
 dataladmetadatamodel/versionlist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index ece1d95..649cfd9 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -192,10 +192,10 @@ class VersionList(MappableObject):
             primary_data_version,
             prefix_path)
         if (
-                element.reference is not None
+                not version_record.element.mapped
+                and element.reference is not None
                 and element.reference == version_record.element.reference
-                and element.realm == version_record.element.realm
-                and not version_record.element.mapped):
+                and element.realm == version_record.element.realm):
             version_record.element = element
 
     def unget_versioned_element(self,
-- 
2.43.0


From 9fb444c69eb4626489cd333671edd78b6e754040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 38/40] fix: load references independent of files in the
 working directory

---
 .../mapper/gitmapper/gitbackend/subprocess.py                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 330c724..82768ec 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -98,7 +98,9 @@ def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
 
 def git_load_str(repo_dir: str, object_reference: str) -> str:
     repo_dir = adapt_for_remote(repo_dir, object_reference)
-    cmd_line = git_command_line(repo_dir, "show", [object_reference])
+    # The separator prevents that the reference is confused with a file
+    # of the same name in the current working directory.
+    cmd_line = git_command_line(repo_dir, "show", [object_reference, "--"])
     return git_text_result(cmd_line)
 
 
-- 
2.43.0


From 803f3293c068367256b8c235c4cbce1148e548e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 39/40] fix: store and load metadata root records without
 identifier or version

---
 .../mapper/gitmapper/metadatarootrecordmapper.py   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 7ab827e..9436993 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -50,9 +50,14 @@ class MetadataRootRecordGitMapper(Mapper):
         else:
             file_tree = FileTree(realm=realm, reference=file_tree_reference)
 
+        # Earlier versions stored an identifier that is None as "None"
+        dataset_identifier = json_object[Strings.DATASET_IDENTIFIER]
+        if dataset_identifier == "None":
+            dataset_identifier = None
+
         MetadataRootRecord.__init__(
             metadata_root_record,
-            UUID(json_object[Strings.DATASET_IDENTIFIER]),
+            UUID(dataset_identifier) if dataset_identifier is not None else None,
             json_object[Strings.DATASET_VERSION],
             metadata,
             file_tree,
@@ -90,8 +95,11 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm)
 
         json_object = {
-            Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
-            Strings.DATASET_VERSION: str(mrr.dataset_version),
+            Strings.DATASET_IDENTIFIER: (
+                str(mrr.dataset_identifier)
+                if mrr.dataset_identifier is not None
+                else None),
+            Strings.DATASET_VERSION: mrr.dataset_version,
             Strings.DATASET_LEVEL_METADATA: dataset_level_metadata_reference.to_json_obj(),
             Strings.FILE_TREE: file_tree_reference.to_json_obj()}
 
-- 
2.43.0


From 244b8f590c047b8353251f54a3102d5409e461f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 40/40] fix: forked processes do not hold the locks of their
 parent

---
 dataladmetadatamodel/mapper/gitmapper/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/utils.py b/dataladmetadatamodel/mapper/gitmapper/utils.py
index 7a72bd8..7c89aa6 100644
--- a/dataladmetadatamodel/mapper/gitmapper/utils.py
+++ b/dataladmetadatamodel/mapper/gitmapper/utils.py
@@ -22,6 +22,10 @@ PID = os.getpid()
 GIT_MAPPER_LOCK_FILE_NAME = "datalad-metalad-write.lock"
 read_write_locked = dict()
 
+# A forked process does not hold the locks of its parent process
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=read_write_locked.clear)
+
 
 @dataclass
 class LockState:
-- 
2.43.0

