From 2aeaf635e2bc24ed452ad5d7330c83e11903f2b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 01/68] fix: GroupBy MIN and MAX ignore zero values

---
 mabel/data/internals/group_by.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a6ac668..e88f0e1 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -142,8 +142,9 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                if existing:
-                    if value or func == "COUNT":
+                # (zero is a value, only nulls and empty values are skipped)
+                if existing or existing == 0:
+                    if value or value == 0 or func == "COUNT":
                         value = AGGREGATORS[func](existing, value)
                     else:
                         value = existing
-- 
2.43.0


From 2ce3aea2d9b4d152d208b89cef247f5d1daf3cb9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 02/68] fix: GroupBy counts records twice when AVG is combined
 with SUM or COUNT

---
 mabel/data/internals/group_by.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index e88f0e1..bc26147 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -116,10 +116,11 @@ class GroupBy:
 
         requested_aggs = aggregations.copy()
 
-        # averages need the sum and the count
-        for func, col in aggregations:
+        # averages need the sum and the count, each aggregation is only calculated once
+        for func, col in requested_aggs:
             if func == "AVG":
-                aggregations += [("SUM", col), ("COUNT", col)]
+                aggregations = aggregations + [("SUM", col), ("COUNT", col)]
+        aggregations = list(dict.fromkeys(aggregations))
 
         columns_to_collect = {col for func, col in aggregations}
 
-- 
2.43.0


From a540ff23434163aec96d1440c2512ca59f4e0930 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 03/68] fix: GroupBy AVG fails on groups with only nulls

---
 mabel/data/internals/group_by.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index bc26147..58ade8d 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -165,7 +165,8 @@ class GroupBy:
         # We now need to expand out the hashed column names
         for group, results in collector.items():
             for func, col in requested_aggs:
-                if func == "AVG":
+                # there is no average when the group only has nulls in the column
+                if func == "AVG" and f"COUNT({col})" in results:
                     results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
 
             results = {
-- 
2.43.0


From d0b281711f380736a4eda9ad6a14a67bb0e11572 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 04/68] fix: GroupBy merges groups with different values which
 concatenate to the same text

---
 mabel/data/internals/group_by.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 58ade8d..a207dfc 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -71,16 +71,12 @@ class GroupBy:
             return
 
         for record in self._dictset:
-            try:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([str(record[column]) for column in self._columns]),
-                    HASH_SEED
-                )
-            except KeyError:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([f"{record.get(column, '')}" for column in self._columns]),
-                    HASH_SEED,
-                )
+            # use the representation of the tuple of values so different combinations of
+            # values (e.g. "ab", "c" and "a", "bc") don't end up in the same group
+            group_key: int = xxh3_64_intdigest(
+                repr(tuple(record.get(column) for column in self._columns)),
+                HASH_SEED,
+            )
             if group_key not in self._group_keys.keys():
                 self._group_keys[group_key] = [
                     (column, record.get(column)) for column in self._columns
-- 
2.43.0


From 0d32966c37fe80adf3953547e33916f682e3b2d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 05/68] fix: DictSet distinct removes different records which
 concatenate to the same text

---
 mabel/data/internals/dictset.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..0853c4d 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -294,14 +294,12 @@ class DictSet(object):
 
         def do_dedupe(data):
             for item in data:
+                # hash a representation which keeps the boundaries between the columns and
+                # the types of the values, so different items aren't seen as duplicates
                 if columns:
-                    hashed_item = hash("".join([str(item.get(c, "$$")) for c in columns]))
+                    hashed_item = hash(repr([item.get(c, "$$") for c in columns]))
                 else:
-                    hashed_item = reduce(
-                        lambda x, y: x ^ y,
-                        [hash(f"{i},{v}") for i, v in enumerate(item.values())],
-                        0,
-                    )
+                    hashed_item = hash(repr(sorted((str(k), repr(v)) for k, v in item.items())))
                 if hashed_item not in hash_list:
                     yield item
                     hash_list[hashed_item] = True
-- 
2.43.0


From 6b29105a2e3c915b55f618bcaa21eb26be9eb082 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 06/68] fix: take(0) and LIMIT 0 return every record

---
 mabel/data/internals/dictset.py            | 2 ++
 mabel/data/readers/internals/sql_reader.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 0853c4d..acbbd8a 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -392,6 +392,8 @@ class DictSet(object):
 
         This returns a generator.
         """
+        if items == 0:
+            return
         for count, item in enumerate(iter(self._iterator)):
             if isinstance(item, dict):
                 yield item
diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 2199ea5..a9d5001 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -348,7 +348,7 @@ def SqlReader(sql_statement: str, **kwargs):
         )
 
     # LIMIT clause
-    if sql.limit:
+    if sql.limit is not None:
         reader = reader.take(sql.limit)
 
     return reader
-- 
2.43.0


From 1fa832f7459fe75b573c670e6aa9395f4a686e2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 07/68] fix: get_items fails on generators and finds nothing in
 MEMORY DictSets

---
 mabel/data/internals/dictset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index acbbd8a..355ca00 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -325,7 +325,11 @@ class DictSet(object):
 
         # if there's no direct access to items, cycle through them
         # yielding the items we want
-        if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
+        if self.storage_class in (
+            STORAGE_CLASS.MEMORY,
+            STORAGE_CLASS.DISK,
+            STORAGE_CLASS.COMPRESSED_MEMORY,
+        ):
             for r in self._iterator._inner_reader(*locations):
                 yield r
             return
@@ -336,7 +340,7 @@ class DictSet(object):
             return
 
         if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
+            for i, r in enumerate(iter(self._iterator)):
                 if i in locations:
                     yield r
 
-- 
2.43.0


From b1ff9300e0db3abfb219be0e3e9fca529febb14d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 08/68] fix: DISK DictSets with no records can't be read

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..dc9cfdd 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -52,6 +52,9 @@ class StorageClassDisk(BaseStorageClass):
         """
         MMAP is by far the fastest way to read files in Python.
         """
+        # an empty file can't be memory mapped
+        if self.length == 0:
+            return
         with open(self.file, mode="rb") as file_obj:
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
-- 
2.43.0


From 271771d5d58769fef449441b2f9cb5cf520d5d07 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 09/68] fix: COMPRESSED_MEMORY DictSets lose empty records

---
 .../storage_classes/storage_class_compressed_memory.py        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..d2cd137 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -63,9 +63,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
         else:
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
-                for record in records:
-                    if record:
-                        yield record
+                yield from records
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From 422df313c4096da7844d8d80372007bcd6e3d41b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 10/68] fix: conditions following a NULL are lost from
 expressions

---
 mabel/data/internals/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 6c27015..144311b 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -163,6 +163,7 @@ class Expression(object):
                 n = TreeNode(token_type, self.tokenizer.next().lower() == "true")
                 return n
             if token_type == TOKENS.NULL:
+                self.tokenizer.next()
                 n = TreeNode(token_type, None)
                 return n
             if token_type == TOKENS.DATE:
-- 
2.43.0


From 912074874deaaf03e9f758c27b2f4170ecfff8e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 11/68] fix: WriterPool nominates writers for eviction when it
 is under capacity

---
 mabel/data/writers/internals/writer_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..b14b77c 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -86,7 +86,7 @@ class WriterPool:
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
         evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
+            : max(len(self.writers) - self.pool_size, 0)
         ][: self.pool_size]
         return [writer.get("identity") for writer in evictees]
 
-- 
2.43.0


From 6c0f231850f312e88398191a3b9870cb07bf3033 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 12/68] fix: cursors fail when blobs are added after the cursor
 was taken

---
 mabel/data/readers/internals/cursor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/cursor.py b/mabel/data/readers/internals/cursor.py
index 8d6ab80..e6895c4 100644
--- a/mabel/data/readers/internals/cursor.py
+++ b/mabel/data/readers/internals/cursor.py
@@ -57,7 +57,10 @@ class Cursor:
         blob_map = bitarray()
         blob_map.frombytes(map_bytes)
         self.read_blobs = [
-            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
+            # there may be more blobs now than when the cursor was taken
+            self.readable_blobs[i]
+            for i in range(min(len(self.readable_blobs), len(blob_map)))
+            if blob_map[i]
         ]
 
     def next_blob(self, previous_blob=None):
-- 
2.43.0


From 3172053a8730376a70287280fe64c36b18468fbb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 13/68] fix: MinIoReader lists blobs once for every hour in the
 date range

---
 mabel/adapters/minio/minio_reader.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 5d3fffc..4b1d75c 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -4,7 +4,6 @@ MinIo Reader - also works with AWS
 
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 from ...errors import MissingDependencyError
-from ...utils import dates
 from ...utils import paths
 
 try:
@@ -35,15 +34,14 @@ class MinIoReader(BaseInnerReader):
 
     def get_blobs_at_path(self, path):
         bucket, object_path, _, _ = paths.get_parts(path)
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
-            cycle_path = paths.build_path(path=object_path, date=cycle_date)
-            blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-
-            yield from [
-                bucket + "/" + blob.object_name
-                for blob in blobs
-                if not blob.object_name.endswith("/")
-            ]
+        # the path is already specific to a point in the date range
+        blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
+
+        yield from [
+            bucket + "/" + blob.object_name
+            for blob in blobs
+            if not blob.object_name.endswith("/")
+        ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         try:
-- 
2.43.0


From 937db2602d2ba08b9ca21f218d9c77ad3e28adb0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 14/68] fix: GoogleCloudStorageWriter marks empty frames
 complete in the wrong folder

---
 mabel/adapters/google/google_cloud_storage_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/adapters/google/google_cloud_storage_writer.py b/mabel/adapters/google/google_cloud_storage_writer.py
index f15d32b..b0b6143 100644
--- a/mabel/adapters/google/google_cloud_storage_writer.py
+++ b/mabel/adapters/google/google_cloud_storage_writer.py
@@ -27,6 +27,7 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
 
         super().__init__(**kwargs)
         self.credentials = credentials
+        self.filename = self.filename_without_bucket
 
         predicate = retry.if_exception_type(
             ConnectionResetError, ProtocolError, InternalServerError, TooManyRequests
@@ -40,7 +41,6 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
         else:  # pragma: no cover
             client = storage.Client(credentials=self.credentials)
         self.gcs_bucket = client.get_bucket(self.bucket)
-        self.filename = self.filename_without_bucket
 
         # if we've been given the filename, use that, otherwise get the
         # name from the path builder
-- 
2.43.0


From 33584d4ecf68d6861000998e39cca5f177526790 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 15/68] fix: LIKE wildcards don't match newlines

---
 mabel/utils/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 794188d..8627a36 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -36,7 +36,10 @@ def _sql_like_fragment_to_regex(fragment):
     """
     # https://codereview.stackexchange.com/a/36864/229677
     safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
-    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + "$")
+    # wildcards match any character, including newlines
+    return re.compile(
+        "^" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\Z", re.DOTALL
+    )
 
 
 def like(x, y):
-- 
2.43.0


From 46d2c18f7889d6c273fe817486475867e8b6cae4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 16/68] fix: flatten loses the name of the field for lists

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index fc48701..e7cac4d 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -81,7 +81,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
             for k, v in enumerate(value):
-                items.extend(flatten({str(k): v}, new_key).items())
+                items.extend(flatten({str(k): v}, separator, new_key).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From b15612bc20045583a72947aaf1b631c53a10b999 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 17/68] fix: values which aren't text aren't escaped in HTML
 tables

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a999a1c..a6feed2 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -27,7 +27,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-            return htmlstring
+            htmlstring = str(htmlstring)
         escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
         # This is done first to prevent escaping other escapes.
         htmlstring = htmlstring.replace("&", "&amp;")
-- 
2.43.0


From c11d6b64f90edd7634a251391ba8c873439538be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 18/68] fix: Reader mixes partition folders where one name is
 the start of another

---
 mabel/data/readers/internals/base_inner_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..adfa569 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -169,10 +169,10 @@ class BaseInnerReader(abc.ABC):
                     }
 
                 for partitioned_folder in partitioned_folders:
+                    # match the whole folder name, `id=1` isn't the folder for `id=12`
+                    folder = f"/{chosen_partition}/{partitioned_folder}/"
                     partitioned_blobs = [
-                        blob
-                        for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        blob for blob in cycle_blobs if chosen_partition == "" or folder in blob
                     ]
 
                     # Work out if there's an as_at part
-- 
2.43.0


From fa29fce079c57450b64f35d5f927d265484b15ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 19/68] fix: partition_filter prunes on partitions of other
 fields

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index adfa569..9c4bdd1 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -130,7 +130,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-                    if any([f"by_{partition_filter_field}" in by for by in list_of_partitions]):
+                    if f"by_{partition_filter_field}" in list_of_partitions:
                         # Do the pruning
                         cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
                         #  We only have one partition now
-- 
2.43.0


From 8c0477362ff759ddbe17a410a48fd13cb359bd95 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 20/68] fix: multiprocess Reader changes nulls to text

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 94de6ba..c539615 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -25,7 +25,7 @@ MAXIMUM_SECONDS_PROCESSES_CAN_RUN = 600
 def fix_dict(obj: dict) -> dict:
     def fix_fields(dt):
         dt_type = type(dt)
-        if dt_type in (int, float, bool, str):
+        if dt_type in (int, float, bool, str, type(None)):
             return dt
         if hasattr(dt, "mini"):
             return dt.mini.decode("UTF8")
-- 
2.43.0


From 7b045596f1bcdacb21a4c169cc556d579d50037e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 21/68] fix: multiprocess Reader hangs if a process is idle
 when it starts

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index c539615..6698b4b 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -54,10 +54,13 @@ def serialize(ob):
 
 
 def _inner_process(func, source_queue, reply_queue):  # pragma: no cover
-    try:
-        source = source_queue.get(timeout=1)
-    except Empty:  # pragma: no cover
-        source = TERMINATE_SIGNAL
+    # every process is sent a terminate signal, wait for it so the queue is always drained
+    source = None
+    while source is None:
+        try:
+            source = source_queue.get(timeout=1)
+        except Empty:  # pragma: no cover
+            source = None
 
     while source != TERMINATE_SIGNAL:
         # non blocking wait - this isn't thread aware in that it can trivially
-- 
2.43.0


From 24fb09f0f25d40d030ee21f6fe26556267c6e1ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 22/68] fix: multiprocess Reader hangs when the read is
 abandoned

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 6698b4b..1f6d399 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -111,6 +111,7 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
 
     process_start_time = time.time()
     item_index = slots
+    abandoned = False
 
     while (
         any({p.is_alive() for p in process_pool})
@@ -131,11 +132,19 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
                 logging.error(
                     f"Sending TERMINATE to long running multi-processed processes after {MAXIMUM_SECONDS_PROCESSES_CAN_RUN} seconds total run time"
                 )
+                abandoned = True
                 break
         except GeneratorExit:
             logging.error("GENERATOR EXIT DETECTED")
+            abandoned = True
             break
 
+    # the processes are waiting for work which isn't coming
+    if abandoned:
+        for process in process_pool:
+            process.terminate()
+        send_queue.cancel_join_thread()
+
     reply_queue.close()
     send_queue.close()
     reply_queue.join_thread()
-- 
2.43.0


From 0955b28ea6c7ea49a982e7b1fc81e491fa9ec348 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 23/68] fix: StreamWriter loses records and reports success
 when a commit fails

---
 mabel/data/writers/internals/writer_pool.py |  3 ++-
 mabel/data/writers/stream_writer.py         | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index b14b77c..476a510 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -63,8 +63,9 @@ class WriterPool:
                 )
             else:
                 writer = writers[0]
-                self.writers = [w for w in self.writers if w.get("identity") != identity]
+                # commit first, if it fails the writer (and its records) stay in the pool
                 writer.get("writer").commit()
+                self.writers = [w for w in self.writers if w.get("identity") != identity]
         finally:
             lock.release()
 
diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e158d7f..aaf670e 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -158,6 +158,7 @@ class StreamWriter(Writer):
 
     def finalize(self, **kwargs):
         self.run_pool_attendant = False
+        failures = []
         with lock:
             for blob_writer_identity in self.writer_pool.writers:
                 try:
@@ -166,10 +167,22 @@ class StreamWriter(Writer):
                     )
                     self.writer_pool.remove_writer(blob_writer_identity["identity"])
                 except Exception as err:
-                    get_logger().debug(
+                    get_logger().error(
                         f"Error finalizing `{blob_writer_identity}`, {type(err).__name__} - {err}"
                     )
-        return super().finalize()
+                    failures.append(err)
+        result = super().finalize()
+        # don't report success if there are records which weren't committed
+        if failures:
+            raise failures[0]
+        return result
+
+    def _evict(self, identity):
+        # a failed eviction is tried again, it shouldn't stop the pool being managed
+        try:
+            self.writer_pool.remove_writer(identity)
+        except Exception as err:
+            get_logger().error(f"Error evicting {identity}, {type(err).__name__} - {err}")
 
     def pool_attendant(self):
         """
@@ -184,13 +197,13 @@ class StreamWriter(Writer):
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due to inactivity - limit is {self.idle_timeout_seconds} seconds, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict(blob_writer_identity)
                 # if we're over capacity, evict the LRU writers
                 for blob_writer_identity in self.writer_pool.nominate_writers_to_evict():
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due the pool being over its {self.writer_pool_capacity} capacity, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict(blob_writer_identity)
 
             time.sleep(0.1)
 
-- 
2.43.0


From 91498f0e868a599b535077e2d34f39091784c9a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 24/68] fix: persisted DictSets can only be cycled once

---
 mabel/data/internals/storage_classes/base_storage_class.py | 7 ++++++-
 .../storage_classes/storage_class_compressed_memory.py     | 5 -----
 mabel/data/internals/storage_classes/storage_class_disk.py | 5 -----
 .../data/internals/storage_classes/storage_class_memory.py | 5 -----
 4 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/mabel/data/internals/storage_classes/base_storage_class.py b/mabel/data/internals/storage_classes/base_storage_class.py
index 4f44b31..cad2b2d 100644
--- a/mabel/data/internals/storage_classes/base_storage_class.py
+++ b/mabel/data/internals/storage_classes/base_storage_class.py
@@ -21,7 +21,12 @@ class BaseStorageClass(ABC):
     def __next__(self):
         if not self.iterator:
             self.iterator = self._inner_reader()
-        return next(self.iterator)
+        try:
+            return next(self.iterator)
+        except StopIteration:
+            # start again from the first record the next time the set is cycled
+            self.iterator = None
+            raise
 
     def __len__(self):
         return self.length
diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index d2cd137..4983c32 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -69,10 +69,5 @@ class StorageClassCompressedMemory(BaseStorageClass):
         self.iterator = iter(self._inner_reader())
         return self.iterator
 
-    def __next__(self):
-        if not self.iterator:
-            self.iterator = iter(self._inner_reader())
-        return next(self.iterator)
-
     def __len__(self):
         return self.length
diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index dc9cfdd..11954a2 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -85,11 +85,6 @@ class StorageClassDisk(BaseStorageClass):
         self.iterator = iter(self._inner_reader())
         return self.iterator
 
-    def __next__(self):
-        if not self.iterator:
-            self.iterator = iter(self._inner_reader())
-        return next(self.iterator)
-
     def __len__(self):
         return self.length
 
diff --git a/mabel/data/internals/storage_classes/storage_class_memory.py b/mabel/data/internals/storage_classes/storage_class_memory.py
index 178d07a..d0a791e 100644
--- a/mabel/data/internals/storage_classes/storage_class_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_memory.py
@@ -22,10 +22,5 @@ class StorageClassMemory(BaseStorageClass):
         self.iterator = self._inner_reader()
         return self.iterator
 
-    def __next__(self):
-        if not self.iterator:
-            self.iterator = self._inner_reader()
-        return next(self.iterator)
-
     def __len__(self):
         return self.length
-- 
2.43.0


From 8f090a2a312ad08793d547d58c6618a1b15889b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 25/68] fix: BatchWriter forgets has_failure if the commit
 fails

---
 mabel/data/writers/batch_writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/batch_writer.py b/mabel/data/writers/batch_writer.py
index 6f3a351..828a7ef 100644
--- a/mabel/data/writers/batch_writer.py
+++ b/mabel/data/writers/batch_writer.py
@@ -104,12 +104,15 @@ class BatchWriter(Writer):
 
     def finalize(self, **kwargs):
 
-        final = super().finalize()
-
         has_failure = bool(kwargs.get("has_failure", False))
 
+        # remember the failure before committing, which may raise
         if has_failure:
             self.seen_failures = True
+
+        final = super().finalize()
+
+        if has_failure:
             get_logger().debug(f"Error found in the stack, not marking frame as complete.")
             return -1
 
-- 
2.43.0


From 59c919e32ec3c6da6a63501ac0ee1c40a47c17f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:09 +0000
Subject: [PATCH 26/68] fix: Reader drops empty records

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..5cada2c 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -269,7 +270,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From 2847c1a8bb74e73fe981b869a9694acaf88e7d3c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 27/68] fix: partition_filter is ignored for fields with an
 underscore in the name

---
 mabel/data/readers/internals/base_inner_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 9c4bdd1..7ccfaa1 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -125,7 +125,9 @@ class BaseInnerReader(abc.ABC):
                         raise NotImplementedError(
                             "`partition_filter` operation can only be equals (`=`)"
                         )
-                    partition_filter_field = text.sanitize(partition_filter_field)
+                    partition_filter_field = text.sanitize(
+                        partition_filter_field, text.VALID_CHARACTERS + "_-"
+                    )
                     partition_filter_value = text.sanitize(partition_filter_value)
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
-- 
2.43.0


From 8d00cc5ca85e7c7a4ff0bd4ffe8e064c384cb957 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 28/68] fix: partition_filter fails for values which aren't
 text

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 7ccfaa1..cd83414 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -128,7 +128,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter_field = text.sanitize(
                         partition_filter_field, text.VALID_CHARACTERS + "_-"
                     )
-                    partition_filter_value = text.sanitize(partition_filter_value)
+                    partition_filter_value = text.sanitize(str(partition_filter_value))
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-- 
2.43.0


From 19dce00b1c21713d6268241815a3402437caa306 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 29/68] fix: StreamWriter stores a record once at a path
 several list items map to

---
 mabel/data/writers/stream_writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index aaf670e..aa1e5b5 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -137,7 +137,8 @@ class StreamWriter(Writer):
                 value = record.get(placeholder)
                 if not isinstance(value, list):
                     value = [value]
-                values.append(value)
+                # different values can be written to the same path
+                values.append([text.sanitize(str(v)) for v in value])
             # get the cartesian product of these lists
             # save the result to a set otherwise it's not a cartesian product
             value_combinations = {i for i in itertools.product(*values)}
@@ -147,7 +148,7 @@ class StreamWriter(Writer):
                 this_identity = identity
                 # do the actual replacing of the placeholders
                 for k, v in zip(placeholders, values):
-                    this_identity = this_identity.replace("{" + k + "}", text.sanitize(str(v)))
+                    this_identity = this_identity.replace("{" + k + "}", v)
 
                 # get the writer and save the record
                 blob_writer = self.writer_pool.get_writer(this_identity)
-- 
2.43.0


From 34ce0f6cf662db74a5189e1909f0007c798cfa36 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 30/68] fix: records which fail validation are lost when
 streaming to parquet

---
 mabel/data/writers/internals/writer_pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 476a510..7b00ff9 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -40,11 +40,16 @@ class WriterPool:
             return writer.get("writer")
 
     def create_writer(self, identity):
+        kwargs = self.kwargs
+        # records fail validation because they don't fit the schema, we can't write
+        # those to parquet files
+        if identity.endswith("/BACKOUT/") and kwargs.get("format", "parquet") == "parquet":
+            kwargs = {**kwargs, "format": "jsonl"}
         # instantiate a new writer
         new_writer = {
             "identity": identity,
             "last_access": time.time(),
-            "writer": BlobWriter(dataset=identity, **self.kwargs),
+            "writer": BlobWriter(dataset=identity, **kwargs),
         }
         return new_writer
 
-- 
2.43.0


From d64cad06371c3e7bdebce876b10da09f9900bd86 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:15 +0000
Subject: [PATCH 31/68] fix: quoted text in expressions is cut at keywords,
 quotes and double spaces

---
 mabel/utils/token_labeler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 041f4c6..90c9cc9 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -174,8 +174,9 @@ def get_token_type(token):
 
 @lru_cache(1)
 def build_splitter():
-    # build the regex by building a list of all of the keywords
-    keywords = []
+    # build the regex by building a list of all of the keywords, anything in quotes is
+    # matched first so nothing inside of the quotes is seen as a keyword
+    keywords = [r"'[^']*'", r'"[^"]*"', r"`[^`]*`"]
     for item in FUNCTIONS:
         keywords.append(r"\b" + item + r"\b")
     for item in AGGREGATORS:
@@ -302,10 +303,10 @@ class Tokenizer:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, other than in quotes
         """
-        whitespace_cleaner = re.compile(r"\s+")
-        return whitespace_cleaner.sub(" ", string).strip()
+        whitespace_cleaner = re.compile(r"""('[^']*'|"[^"]*"|`[^`]*`)|\s+""")
+        return whitespace_cleaner.sub(lambda match: match.group(1) or " ", string).strip()
 
     def tokenize(self, expression):
         expression = self.clean_statement(expression)
-- 
2.43.0


From dceabb0e641a98a3ca5ef90bf81472a9fd98db45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:15 +0000
Subject: [PATCH 32/68] fix: nulls are matched by LIKE as if they were the text
 None

---
 mabel/utils/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 8627a36..55b7635 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -43,6 +43,9 @@ def _sql_like_fragment_to_regex(fragment):
 
 
 def like(x, y):
+    # nulls aren't like anything
+    if x is None:
+        return False
     return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())
 
 
-- 
2.43.0


From c1269a83b1b2355e45e155d97106eeab009b21f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:15 +0000
Subject: [PATCH 33/68] fix: date values never satisfy a comparison in an
 expression

---
 mabel/data/internals/expression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 144311b..8d6effd 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -15,6 +15,8 @@ expression tree as it's only doing boolean logic.
 
 Derived from: https://gist.github.com/leehsueh/1290686
 """
+import datetime
+
 from mabel.data.readers.internals.inline_evaluator import *
 from mabel.utils.dates import parse_iso
 from mabel.utils.token_labeler import OPERATORS
@@ -190,6 +192,9 @@ class Expression(object):
         raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")
 
     def interpret_value(self, value):
+        if type(value) == datetime.date:
+            # dates in expressions are datetimes, these can't be compared with dates
+            return parse_iso(value)
         if not isinstance(value, str):
             return value
         if value.upper() in ("TRUE", "FALSE"):
-- 
2.43.0


From 0fd42d5559e8d5bc3fc3014de13fc476d724e286 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 34/68] fix: GroupBy MIN and MAX ignore empty texts

---
 mabel/data/internals/group_by.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a207dfc..2cb82fe 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -139,9 +139,9 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                # (zero is a value, only nulls and empty values are skipped)
-                if existing or existing == 0:
-                    if value or value == 0 or func == "COUNT":
+                # (zero is a value, only nulls are skipped, and empty texts in sums)
+                if existing is not None and not (func == "SUM" and existing == ""):
+                    if not (func == "SUM" and value == ""):
                         value = AGGREGATORS[func](existing, value)
                     else:
                         value = existing
-- 
2.43.0


From 62d09308b7e09524b5eb40fbc3151d726d6f0ec6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 35/68] fix: GroupBy loses groups with only nulls in the
 aggregated columns

---
 mabel/data/internals/group_by.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 2cb82fe..ddd2d75 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -153,6 +153,10 @@ class GroupBy:
                 # update the collector with the latest value
                 collector[record[0]][key] = value
 
+        # groups with only nulls in the columns haven't been seen by the mapper
+        for group in self._group_keys:
+            collector[group]
+
         # the order of the resulting data set is the order of the hashes - this
         # will appear random, but will ensure the order is consistent between
         # reruns.
@@ -166,7 +170,8 @@ class GroupBy:
                     results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
 
             results = {
-                f"{func}({col})": results.get(f"{func}({col})") for func, col in requested_aggs
+                f"{func}({col})": results.get(f"{func}({col})", 0 if func == "COUNT" else None)
+                for func, col in requested_aggs
             }
 
             keys = self._group_keys[group]
-- 
2.43.0


From 596e91abef220925352694a2c2b31540190e4ff7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:23 +0000
Subject: [PATCH 36/68] fix: selecting several groups or columns of a
 CollectedSet fails

---
 mabel/data/internals/collected_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 99361c0..45fb719 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -111,7 +111,7 @@ class CollectedSet:
             newg = CollectedSet([], None)
             for entry in item:
                 if entry in self._collections:
-                    newg._collections[entry].append(self._collections[entry])
+                    newg._collections[entry] = self._collections[entry]
             return newg
         else:
             return SubCollection(self._collections.get(item))
@@ -133,7 +133,7 @@ class SubCollection:
         Selector access to a value in a collection, support arrays
         """
         if isinstance(item, tuple):
-            return list(self.values.select(*item))
+            return list(self.values.select(list(item)))
         else:
             return self.values.collect_list(item)
 
-- 
2.43.0


From b6f286aabcbe14b8120c42962ccafc5edc5275f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 37/68] fix: types reports every column of a DictSet which
 isn't persisted as empty

---
 mabel/data/internals/dictset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 355ca00..9db5844 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -181,7 +181,8 @@ class DictSet(object):
         )
 
     def types(self, number_of_rows: int = 100):
-        top = self.take(number_of_rows)
+        # the rows are cycled over for the keys, and for every key
+        top = DictSet(self.itake(number_of_rows), storage_class=STORAGE_CLASS.MEMORY)
         response = {}
         for key in top.keys():
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
-- 
2.43.0


From 029743f95e392111b28e6de3aac15a7c75a64b62 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 38/68] fix: records read from a persisted DictSet before are
 left out when it is cycled

---
 mabel/data/internals/dictset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9db5844..152a757 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -117,6 +117,9 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
+        if self.storage_class != STORAGE_CLASS.NO_PERSISTANCE:
+            # cycle from the first record, whatever has been read from the set before
+            iter(self._iterator)
         return self
 
     def __next__(self):
-- 
2.43.0


From 7608584d678a582fc21ff1056265640f551b6bea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 39/68] fix: types reports columns with only nulls as mixed

---
 mabel/data/internals/dictset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 152a757..1fcff38 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -191,7 +191,7 @@ class DictSet(object):
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
             if len(key_type) == 0:  # pragma: no cover
                 response[key] = "empty"
-            if len(key_type) == 1:
+            elif len(key_type) == 1:
                 response[key] = key_type.pop()
             elif sorted(key_type) == ["float", "int"]:
                 response[key] = "numeric"
-- 
2.43.0


From ae72685330421e021e6721f3cdec15047f6d74a1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 40/68] fix: ORDER BY without a direction followed by LIMIT
 never ends

---
 mabel/data/readers/internals/sql_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index a9d5001..5e2921a 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -215,11 +215,12 @@ class SqlParser:
                     "DESC",
                 ):
                     self.order_descending = labeler.next_token_value().upper() == "DESC"
-                if labeler.has_next():
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
                 self.limit = int(self.collector(labeler))
+            else:
+                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
 
         # validate inputs (currently only the FROM clause)
         if isinstance(self.dataset, str):
-- 
2.43.0


From e37b2bcaea8c5f01f5525c7fe009e752748103ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 41/68] fix: quoted text in SQL statements is cut at keywords
 and double spaces

---
 mabel/data/readers/internals/sql_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 5e2921a..25bdf69 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -76,7 +76,8 @@ class SqlParser:
 
     def sql_parts(self, string):
         reg = re.compile(
-            r"(\(|\)|,|"
+            # anything in quotes is matched first so nothing inside of the quotes is split
+            r"('[^']*'|\"[^\"]*\"|`[^`]*`|\(|\)|,|"
             + r"|".join([r"\b" + i.replace(r" ", r"\s") + r"\b" for i in SQL_PARTS])
             + r"|\s)",
             re.IGNORECASE,
@@ -86,10 +87,10 @@ class SqlParser:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, other than in quotes
         """
-        _RE_COMBINE_WHITESPACE = re.compile(r"\s+")
-        return _RE_COMBINE_WHITESPACE.sub(" ", string).strip()
+        _RE_COMBINE_WHITESPACE = re.compile(r"""('[^']*'|"[^"]*"|`[^`]*`)|\s+""")
+        return _RE_COMBINE_WHITESPACE.sub(lambda match: match.group(1) or " ", string).strip()
 
     def remove_comments(self, string):
         pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
-- 
2.43.0


From 956f1fe338a73bb899af7899b4d6a6ef50aa7b22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 42/68] fix: the WHERE clause of a statement with a sub-query
 is ignored

---
 mabel/data/readers/internals/sql_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 25bdf69..d1699af 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -274,6 +274,8 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        if sql.where_expression:
+            reader = reader.filter(sql.where_expression)
     else:
         reader = Reader(
             select=actual_select,
-- 
2.43.0


From dc157ee45d2c90211461b6fc5e25f506774cf5db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 43/68] fix: functions on the records of a sub-query are always
 null

---
 mabel/data/readers/internals/sql_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index d1699af..b72d262 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -274,6 +274,8 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        if actual_select != "*":
+            reader = DictSet(map(Evaluator(actual_select), reader))
         if sql.where_expression:
             reader = reader.filter(sql.where_expression)
     else:
-- 
2.43.0


From 071e3df4dec2d59145e5b96f9b8b4472f65fa21b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 44/68] fix: aggregates of no records have no row

---
 mabel/data/readers/internals/sql_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index b72d262..9dba296 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -313,6 +313,11 @@ def SqlReader(sql_statement: str, **kwargs):
 
         if aggregations:
             grouped = GroupBy(reader, groups).aggregate(aggregations)
+            if not sql.group_by:
+                # there is always a row, even if there are no records to aggregate
+                grouped = list(grouped) or [
+                    {f"{func}({col})": 0 if func == "COUNT" else None for func, col in aggregations}
+                ]
         else:
             grouped = GroupBy(reader, groups).groups()
 
-- 
2.43.0


From 6cfeb1ed5579cc8947fae599a30ffe786e0d2438 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 45/68] fix: selecting a column under several names, or
 swapping names, loses values

---
 mabel/data/readers/internals/sql_reader.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 9dba296..1a3a24b 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -330,16 +330,13 @@ def SqlReader(sql_statement: str, **kwargs):
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    renames = {}  # type:ignore
-    for t in sql.select_evaluator.tokens:  # type:ignore
-        if t["as"]:
-            renames[get_function_name(t)] = t["as"]
+    renames = [
+        (get_function_name(t), t["as"]) for t in sql.select_evaluator.tokens if t["as"]  # type:ignore
+    ]
 
     def _perform_renames(row):
-        for k, v in [(k, v) for k, v in row.items()]:
-            if k in renames:
-                row[renames[k]] = row.pop(k, row.get(renames[k]))
-        return row
+        # the new names are for the values before anything has been renamed
+        return {**row, **{new: row[old] for old, new in renames if old in row}}
 
     if renames:
         reader = DictSet(map(_perform_renames, reader))
-- 
2.43.0


From 8cc9937b35a958f35b769838299e81c7d66799e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:25 +0000
Subject: [PATCH 46/68] fix: comments in SQL statements join the words around
 them, or aren't seen before a carriage return

---
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 1a3a24b..fb7a55f 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -93,7 +93,7 @@ class SqlParser:
         return _RE_COMBINE_WHITESPACE.sub(lambda match: match.group(1) or " ", string).strip()
 
     def remove_comments(self, string):
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\'|`.*?`)|(/\*.*?\*/|--[^\r\n]*)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
@@ -102,7 +102,7 @@ class SqlParser:
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if match.group(2) is not None:
-                return ""  # so we will return empty to remove the comment
+                return " "  # so we will return a space, a comment separates words
             else:  # otherwise, we will return the 1st group
                 return match.group(1)  # captured quoted-string
 
-- 
2.43.0


From 2587f0423ba4e943bfe69892f5b76231f3fa6d63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:36 +0000
Subject: [PATCH 47/68] fix: iterating over a DictSet of a list fails

---
 mabel/data/internals/dictset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 1fcff38..8e3cdf4 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -94,6 +94,7 @@ class DictSet(object):
         """
         self.storage_class = storage_class
         self._iterator = iterator
+        self._reader = None
         self._temporary_folder = None
 
         # if we're persisting to memory, load into a list
@@ -120,10 +121,13 @@ class DictSet(object):
         if self.storage_class != STORAGE_CLASS.NO_PERSISTANCE:
             # cycle from the first record, whatever has been read from the set before
             iter(self._iterator)
+        elif not hasattr(self._iterator, "__next__"):
+            # what is only iterable, like a list, is cycled from the first record
+            self._reader = iter(self._iterator)
         return self
 
     def __next__(self):
-        return next(self._iterator)
+        return next(self._iterator if self._reader is None else self._reader)
 
     def __enter__(self):  # pragma:no cover
         return self
-- 
2.43.0


From cc6770c2b5e5a0f50089279d59e5bbae7fd8d86f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:56 +0000
Subject: [PATCH 48/68] fix: equal numbers of different types are different
 groups and not duplicates

---
 mabel/data/internals/dictset.py  |  9 +++++++--
 mabel/data/internals/group_by.py | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 8e3cdf4..ac4363d 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -41,6 +41,7 @@ from mabel.data.internals.dnf_filters import DnfFilters
 from mabel.data.internals.dumb_iterator import DumbIterator
 from mabel.data.internals.expression import Expression
 from mabel.data.internals.group_by import GroupBy
+from mabel.data.internals.group_by import representation
 from mabel.data.internals.storage_classes import StorageClassCompressedMemory
 from mabel.data.internals.storage_classes import StorageClassDisk
 from mabel.data.internals.storage_classes import StorageClassMemory
@@ -305,9 +306,13 @@ class DictSet(object):
                 # hash a representation which keeps the boundaries between the columns and
                 # the types of the values, so different items aren't seen as duplicates
                 if columns:
-                    hashed_item = hash(repr([item.get(c, "$$") for c in columns]))
+                    hashed_item = hash(
+                        repr([representation(item.get(c, "$$")) for c in columns])
+                    )
                 else:
-                    hashed_item = hash(repr(sorted((str(k), repr(v)) for k, v in item.items())))
+                    hashed_item = hash(
+                        repr(sorted((str(k), representation(v)) for k, v in item.items()))
+                    )
                 if hashed_item not in hash_list:
                     yield item
                     hash_list[hashed_item] = True
diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index ddd2d75..8c7aa7a 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -5,7 +5,9 @@ will be effective:
 
 python setup.py build_ext --inplace
 """
+import math
 from collections import defaultdict
+from decimal import Decimal
 
 from xxhash import xxh3_64_intdigest
 
@@ -32,6 +34,17 @@ class TooManyGroups(Exception):
     pass
 
 
+def representation(value):
+    """
+    A text which is the same for equal values only, numbers are equal whatever their
+    type (2 is 2.0) but aren't equal to booleans or texts.
+    """
+    if isinstance(value, (int, float, Decimal)) and not isinstance(value, bool):
+        if math.isfinite(value):
+            return "number " + repr(value.as_integer_ratio())
+    return repr(value)
+
+
 class GroupBy:
     """
     GroupBy does a lazy evaluation of the groups, the groups are calculated as part of
@@ -74,7 +87,7 @@ class GroupBy:
             # use the representation of the tuple of values so different combinations of
             # values (e.g. "ab", "c" and "a", "bc") don't end up in the same group
             group_key: int = xxh3_64_intdigest(
-                repr(tuple(record.get(column) for column in self._columns)),
+                repr(tuple(representation(record.get(column)) for column in self._columns)),
                 HASH_SEED,
             )
             if group_key not in self._group_keys.keys():
-- 
2.43.0


From f955560c0f5608dfefabdad441d3a908b756873f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:17 +0000
Subject: [PATCH 49/68] fix: the last line of a zstd file is lost if it doesn't
 end with a new line, and all but its first frame

---
 mabel/data/readers/internals/decompressors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 00fc9ae..992d1d9 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -7,8 +7,9 @@ def zstd(stream):
     """
     import zstandard  # type:ignore
 
-    with zstandard.open(stream, "rb") as file:  # type:ignore
-        yield from file.read().split(b"\n")[:-1]
+    # a file can have many frames, and may not have a new line at the end
+    with zstandard.ZstdDecompressor().stream_reader(stream, read_across_frames=True) as file:
+        yield from file.read().splitlines()
 
 
 def lzma(stream):
-- 
2.43.0


From 7ca2ec5186fb56f9b47c25dfc1d364f5063de6f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:17 +0000
Subject: [PATCH 50/68] fix: new lines in quoted values of csv files are lost

---
 mabel/data/readers/internals/decompressors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 992d1d9..ce4e31b 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -74,5 +74,7 @@ def block(stream):
 
 def csv(stream):
     import csv
+    import io
 
-    yield from csv.DictReader(stream.read().decode("utf8").splitlines())
+    # quoted values can have new lines in them
+    yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From fb4ec3b9f4a821d1d25feb1e3cf39b197f4a3cd2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:05 +0000
Subject: [PATCH 51/68] fix: an HTML table with a limit of no rows shows every
 row

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a6feed2..2dfdd82 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -55,7 +55,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
     rows = []
     columns = []  # type:ignore
     i = -1
-    for i, row in enumerate(iter(dictset)):
+    for i, row in enumerate(iter([] if limit == 0 else dictset)):
         rows.append(row)
         columns = columns + list(row.keys())
         if (i + 1) == limit:
-- 
2.43.0


From 75b0f6e8f4dfb9608c8976863cd517b5ea65c36f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:05 +0000
Subject: [PATCH 52/68] fix: values in a text table are under the wrong column
 if rows have different columns

---
 mabel/data/internals/display.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index 2dfdd82..ebc5407 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -128,7 +128,13 @@ def ascii_table(dictset: Iterable[Dict[Any, Any]], limit: int = 5):
     for row in cache:
         result.append(
             "│"
-            + "│".join([str(format_value(v)).center(columns[k] + 2) for k, v in row.items()])
+            + "│".join(
+                [
+                    # rows can have their values in another order, or not have some
+                    str(format_value(row.get(k, ""))).center(v + 2)
+                    for k, v in columns.items()
+                ]
+            )
             + "│"
         )
 
-- 
2.43.0


From eb95eb9c64423d5d40e016ae4feb354863336a55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:54 +0000
Subject: [PATCH 53/68] fix: texts with spaces, underscores or other digits
 where a date has numbers are parsed as dates

---
 mabel/utils/dates.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 61ffe07..de5522a 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -40,6 +40,13 @@ def parse_delta(delta: str) -> datetime.timedelta:
     return datetime.timedelta(seconds=0)
 
 
+def _numbers(texts):
+    """only digits are numbers here, int() also allows spaces, underscores, signs..."""
+    if not all(text.isascii() and text.isdigit() for text in texts):
+        raise ValueError("Not a number")
+    return map(int, texts)
+
+
 def parse_iso(
     value: Union[str, int, float, datetime.datetime, datetime.date],
 ) -> Optional[datetime.datetime]:
@@ -96,15 +103,14 @@ def parse_iso(
                 return None
             if val_len == 10:
                 # YYYY-MM-DD
-                return datetime.datetime(*map(int, [value[:4], value[5:7], value[8:10]]))
+                return datetime.datetime(*_numbers([value[:4], value[5:7], value[8:10]]))
             if val_len >= 16:
                 if not (value[10] in ("T", " ") and value[13] in DATE_SEPARATORS):
                     return None
                 if val_len >= 19 and value[16] in DATE_SEPARATORS:
                     # YYYY-MM-DD HH:MM:SS
                     return datetime.datetime(
-                        *map(  # type:ignore
-                            int,
+                        *_numbers(  # type:ignore
                             [
                                 value[:4],  # YYYY
                                 value[5:7],  # MM
@@ -118,8 +124,7 @@ def parse_iso(
                 if val_len == 16:
                     # YYYY-MM-DD HH:MM
                     return datetime.datetime(
-                        *map(  # type:ignore
-                            int,
+                        *_numbers(  # type:ignore
                             [
                                 value[:4],
                                 value[5:7],
-- 
2.43.0


From 520ff00dcd5801631c4bc4795f6df06c7d76d329 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:54 +0000
Subject: [PATCH 54/68] fix: parse_iso raises an error for numbers which are
 too large to be a time

---
 mabel/utils/dates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index de5522a..3b8f69e 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -135,7 +135,7 @@ def parse_iso(
                         )
                     )
         return None
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError, OSError):
         return None
 
 
-- 
2.43.0


From 476dcc0bcb24c80d4fd732eb5b9dc35ecc8dc0b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 55/68] fix: select expressions with commas, parentheses or
 'as' in quotes are cut there

---
 mabel/data/readers/internals/inline_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 07319ba..0b70145 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -229,7 +229,8 @@ class TokenSet(list):
 
 class Evaluator:
     def __init__(self, proforma):
-        reg = re.compile(r"(\(|\)|,|\bAS\b)", re.IGNORECASE)
+        # anything in quotes is matched first so nothing inside of the quotes is split
+        reg = re.compile(r"""('[^']*'|"[^"]*"|`[^`]*`|\(|\)|,|\bAS\b)""", re.IGNORECASE)
         tokens = [t.strip() for t in reg.split(proforma) if t.strip() not in ("", ",")]
         self.tokens = build(tokens)
         self._iter = None
-- 
2.43.0


From 9d1f1107e7e83037cb76c4613a8c022435aaeaf9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 56/68] fix: the fields of a select expression are without its
 booleans and nulls

---
 mabel/data/readers/internals/inline_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 0b70145..f2b4e56 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -71,7 +71,8 @@ def get_fields(tokens):
                 TOKENS.LITERAL,
                 TOKENS.DATE,
                 TOKENS.FLOAT,
-                TOKENS.DATE,
+                TOKENS.BOOLEAN,
+                TOKENS.NULL,
             ):
                 if token["as"]:
                     yield token["as"]
-- 
2.43.0


From 9bf5964cc1f8ab5b7b0fe66d561cf06be5e8e5a1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 57/68] fix: RIGHT of no characters is the whole text

---
 mabel/data/readers/internals/inline_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 0168559..86be3e7 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -213,7 +213,7 @@ FUNCTIONS = {
     "LEN": len,
     "STRING": to_string,
     "LEFT": lambda x, y: str(x)[: int(y)],
-    "RIGHT": lambda x, y: str(x)[-int(y) :],
+    "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) != 0 else "",
     "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
     "CONCAT": concat,
     # NUMBERS
-- 
2.43.0


From 427d630cfad226a459ff647426b1ec9b7f5834fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 58/68] fix: MD5 of a value is the one of an equal value with
 another text in an earlier row

---
 mabel/data/readers/internals/inline_functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 86be3e7..90970e6 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -183,10 +183,15 @@ def parse_number(parser, coerce):
 
 
 @lru_cache(8)
-def get_md5(item):
+def _md5(text):
     import hashlib
 
-    return hashlib.md5(str(item).encode()).hexdigest()  # nosec - meant to be MD5
+    return hashlib.md5(text.encode()).hexdigest()  # nosec - meant to be MD5
+
+
+def get_md5(item):
+    # equal values (1, 1.0 and True) have different texts, and not every value is hashable
+    return _md5(str(item))
 
 
 FUNCTIONS = {
-- 
2.43.0


From 84303af72aed42c98f5565f839a51be656bf6be9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:21 +0000
Subject: [PATCH 59/68] fix: DATE, TIME, HOUR, MINUTE, SECOND and DAYSDIFF
 raise an error for dates without a time

---
 .../readers/internals/inline_functions.py     | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 90970e6..766e1d7 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -15,6 +15,17 @@ from orso.cityhash import CityHash64
 from mabel.utils.dates import parse_iso
 
 
+def to_datetime(input):
+    """
+    Convert texts and dates to datetime objects, anything else is left as it is
+    """
+    if isinstance(input, str):
+        return parse_iso(input)
+    if isinstance(input, datetime.date) and not isinstance(input, datetime.datetime):
+        return datetime.datetime.combine(input, datetime.time.min)
+    return input
+
+
 def get_year(input):
     """
     Convert input to a datetime object and extract the Year part
@@ -52,8 +63,7 @@ def get_date(input):
     """
     Convert input to a datetime object and extract the Date part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
+    input = to_datetime(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.date()
     return None
@@ -63,8 +73,7 @@ def get_time(input):
     """
     Convert input to a datetime object and extract the Time part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
+    input = to_datetime(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.time()
     return None
@@ -85,8 +94,7 @@ def get_hour(input):
     """
     Convert input to a datetime object and extract the Hour part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
+    input = to_datetime(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.hour
     return None
@@ -96,8 +104,7 @@ def get_minute(input):
     """
     Convert input to a datetime object and extract the Minute part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
+    input = to_datetime(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.minute
     return None
@@ -107,8 +114,7 @@ def get_second(input):
     """
     Convert input to a datetime object and extract the Seconds part
     """
-    if isinstance(input, str):
-        input = parse_iso(input)
+    input = to_datetime(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.second
     return None
@@ -162,10 +168,8 @@ def add_days(start_date, day_count):
 
 
 def diff_days(start_date, end_date):
-    if isinstance(start_date, str):
-        start_date = parse_iso(start_date)
-    if isinstance(end_date, str):
-        end_date = parse_iso(end_date)
+    start_date = to_datetime(start_date)
+    end_date = to_datetime(end_date)
     if isinstance(start_date, (datetime.date, datetime.datetime)) and isinstance(
         end_date, (datetime.date, datetime.datetime)
     ):
-- 
2.43.0


From c8f078abd953e3da69924693fa8c982323feb9cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 60/68] fix: functions of null values raise errors, or their
 results are of the text 'None'

---
 .../readers/internals/inline_functions.py     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 766e1d7..588073d 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -241,3 +241,23 @@ FUNCTIONS = {
     "BETWEEN": lambda val, low, high: low < val < high,
     "SORT": lambda x: sorted(x),
 }
+
+
+def null_if_null(function):
+    """
+    What is worked out from a null is a null
+    """
+
+    def inner(*values):
+        if any(value is None for value in values):
+            return None
+        return function(*values)
+
+    return inner
+
+
+for _name in (
+    ("ADDDAYS", "UCASE", "UPPER", "LCASE", "LOWER", "TRIM", "LEN", "LEFT", "RIGHT", "MID")
+    + ("ROUND", "BOOLEAN", "BETWEEN", "SORT")
+):
+    FUNCTIONS[_name] = null_if_null(FUNCTIONS[_name])
-- 
2.43.0


From 641ba018d95a3d71c2b016f86e64650f6dd0e841 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:47 +0000
Subject: [PATCH 61/68] fix: select expressions with * have an extra field '*'

---
 mabel/data/readers/internals/inline_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index f2b4e56..a98b51d 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -244,6 +244,8 @@ class Evaluator:
             else:
                 builder = dic.copy()
         for field in self.tokens:
+            if field["type"] == TOKENS.EVERYTHING:
+                continue  # the columns of the row are there already
             (k, v) = evaluate_field(dic, field)
             builder[k] = v
         return builder
-- 
2.43.0


From 636f6e09af3b9e170c745f3fd44f4d4e999ca3f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:54 +0000
Subject: [PATCH 62/68] fix: columns and constants in select expressions don't
 get the names they are given with AS

---
 mabel/data/readers/internals/inline_evaluator.py |  2 +-
 mabel/data/readers/internals/sql_reader.py       | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index a98b51d..626ef94 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -247,7 +247,7 @@ class Evaluator:
             if field["type"] == TOKENS.EVERYTHING:
                 continue  # the columns of the row are there already
             (k, v) = evaluate_field(dic, field)
-            builder[k] = v
+            builder[field["as"] or k] = v
         return builder
 
     def __iter__(self):
diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index fb7a55f..45806c4 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -258,7 +258,16 @@ def SqlReader(sql_statement: str, **kwargs):
     if sql.select_expression is None:
         actual_select = "*"
     elif sql.select_expression != "*":
-        actual_select = sql.select_expression + ", *"
+        # columns are renamed after they have been filtered and grouped
+        actual_select = (
+            ", ".join(
+                f"{get_function_name(t)} AS {t['as']}"
+                if t["as"] and t["type"] == TOKENS.FUNCTION
+                else get_function_name(t)
+                for t in sql.select_evaluator.tokens  # type:ignore
+            )
+            + ", *"
+        )
 
     reducer = None
     if sql.select_expression == "COUNT(*)":
-- 
2.43.0


From fc9b9d46391c222608a7d7ae7471607491682e0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:08 +0000
Subject: [PATCH 63/68] fix: a dataset's path and file names aren't taken for
 partitions and frames

---
 .../readers/internals/base_inner_reader.py    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index cd83414..8dcb678 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -19,17 +19,18 @@ BUFFER_SIZE: int = 64 * 1024 * 1024  # 64Mb
 
 class BaseInnerReader(abc.ABC):
     def _extract_as_at(self, path):
-        parts = path.split("/")
+        parts = path.split("/")[:-1]  # the last part is the file
         for part in parts:
             if part.startswith("as_at_"):
                 return part
         return ""
 
     def _extract_by(self, path):
-        parts = path.split("/")
+        parts = path.split("/")[:-1]  # the last part is the file
         for part in parts:
             if part.startswith("by_"):
                 return part
+        return ""
 
     def __init__(self, partitions=None, partition_filter=None, **kwargs):
         today = datetime.datetime.utcnow().replace(minute=0, second=0, microsecond=0)
@@ -102,11 +103,20 @@ class BaseInnerReader(abc.ABC):
                 # so we don't want to include in when reading
                 cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
 
+                # Only the folders below the one for the date hold partitions and frames, the
+                # ones above it are part of the name of the dataset
+                base = cycle_path.as_posix()
+                full_names = {
+                    blob[len(base) :] if blob.startswith(base + "/") else blob: blob
+                    for blob in cycle_blobs
+                }
+                cycle_blobs = list(full_names)
+
                 # The partitions are stored in folders with the prefix 'by_', as in,
                 # partitioned **by** field name
                 list_of_partitions = {
                     self._extract_by(blob) for blob in cycle_blobs if "/by_" in blob
-                }
+                } - {""}
 
                 # If we've been provided a partition_filter search hint, try to use this
                 # first to prune data
@@ -180,7 +190,7 @@ class BaseInnerReader(abc.ABC):
                     # Work out if there's an as_at part
                     as_ats = {
                         self._extract_as_at(blob) for blob in partitioned_blobs if "as_at_" in blob
-                    }
+                    } - {""}
                     if as_ats:
                         as_ats = sorted(as_ats)
                         as_at = as_ats.pop()
@@ -219,6 +229,6 @@ class BaseInnerReader(abc.ABC):
                                 if (as_at in blob) and ("/frame.complete" not in blob)
                             ]
 
-                    blobs += partitioned_blobs
+                    blobs += [full_names[blob] for blob in partitioned_blobs]
 
         return sorted(blobs)
-- 
2.43.0


From 7a2322fefcd9b9577a35429a2f85a3cd6ec6357f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:42 +0000
Subject: [PATCH 64/68] fix: BACKOUT in the name of a dataset or file isn't a
 BACKOUT folder

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 8dcb678..8e452b4 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -101,7 +101,7 @@ class BaseInnerReader(abc.ABC):
 
                 # Remove any BACKOUT data - this is essentially a DEAD LETTER queue
                 # so we don't want to include in when reading
-                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
+                cycle_blobs = [blob for blob in cycle_blobs if "/BACKOUT/" not in blob]
 
                 # Only the folders below the one for the date hold partitions and frames, the
                 # ones above it are part of the name of the dataset
-- 
2.43.0


From 9bc6fa017ea83c970d472e220bcf48d546c1f4d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:51 +0000
Subject: [PATCH 65/68] fix: a day with only files which aren't data doesn't
 end the search for recent data

---
 mabel/data/readers/reader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index 5cada2c..dbd7185 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -235,9 +235,18 @@ class _LowLevelReader(object):
         # get list of blobs handles as_at, by and frames
         blob_list = self.reader_class.get_list_of_blobs()
 
+        def has_data(blobs):
+            # a day with only files we don't read doesn't have data
+            extensions = [f".{b.split('.')[-1]}" for b in blobs]
+            return any(
+                KNOWN_EXTENSIONS[e][2] == EXTENSION_TYPE.DATA
+                for e in extensions
+                if e in KNOWN_EXTENSIONS
+            )
+
         # Handle stepping back if the option is set
         if self.freshness_limit > datetime.timedelta(seconds=1):
-            while not bool(blob_list) and self.freshness_limit >= datetime.timedelta(
+            while not has_data(blob_list) and self.freshness_limit >= datetime.timedelta(
                 days=self.reader_class.days_stepped_back
             ):
                 self.reader_class.step_back_a_day()
-- 
2.43.0


From f71992304cb24f4c4cd40d0e4d6f01213b8fd3da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:48 +0000
Subject: [PATCH 66/68] fix: elements of the same name in different namespaces
 are all kept

---
 mabel/data/internals/xmler.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/mabel/data/internals/xmler.py b/mabel/data/internals/xmler.py
index da888f0..c92dfca 100644
--- a/mabel/data/internals/xmler.py
+++ b/mabel/data/internals/xmler.py
@@ -6,46 +6,34 @@ from collections import defaultdict
 from xml.etree import cElementTree as ElementTree  # nosec
 
 
-def strip_namespace(entry):
-    if isinstance(entry, dict):
-        for k in [k for k in entry.keys() if k.startswith("{")]:
-            k2 = k.split("}", 1)[1]
-            entry[k2] = entry.pop(k)
-        for k in [k for k in entry.keys() if k.startswith("@{")]:
-            k2 = k.split("}", 1)[1]
-            entry[f"@{k2}"] = entry.pop(k)
-        for child in entry:
-            if isinstance(entry[child], (list, dict)):
-                strip_namespace(entry[child])
-    if isinstance(entry, list):
-        for child in entry:
-            if isinstance(child, (list, dict)):
-                strip_namespace(child)
+def local_name(name):
+    """the name without its namespace"""
+    return name.split("}", 1)[1] if name.startswith("{") else name
 
 
 def etree_to_dict(t):
-    d = {t.tag: {} if t.attrib else None}
+    # drop the namespace before grouping the children, the same names are one list
+    tag = local_name(t.tag)
+    d = {tag: {} if t.attrib else None}
     children = list(t)
     if children:
         dd = defaultdict(list)
         for dc in map(etree_to_dict, children):
             for k, v in dc.items():
                 dd[k].append(v)
-        d = {t.tag: {k: v[0] if len(v) == 1 else v for k, v in dd.items()}}
+        d = {tag: {k: v[0] if len(v) == 1 else v for k, v in dd.items()}}
     if t.attrib:
-        d[t.tag].update(("@" + k, v) for k, v in t.attrib.items())
+        d[tag].update(("@" + local_name(k), v) for k, v in t.attrib.items())
     if t.text:
         text = t.text.strip()
         if children or t.attrib:
             if text:
-                d[t.tag]["#text"] = text
+                d[tag]["#text"] = text
         else:
-            d[t.tag] = text
+            d[tag] = text
     return d
 
 
 def parse(xml_string):
     tree = ElementTree.XML(xml_string)
-    dictionary = etree_to_dict(tree)
-    strip_namespace(dictionary)
-    return dictionary
+    return etree_to_dict(tree)
-- 
2.43.0


From 8340ac8fd3dbfbebb0c7bd9ba5768b39ee1a8c6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:24 +0000
Subject: [PATCH 67/68] fix: a schema given to a writer as a dictionary isn't
 changed

---
 mabel/data/validator/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/validator/__init__.py b/mabel/data/validator/__init__.py
index a1ad905..6834722 100644
--- a/mabel/data/validator/__init__.py
+++ b/mabel/data/validator/__init__.py
@@ -31,6 +31,8 @@ def schema_loader(
             definition = orjson.loads(definition)  # type:ignore
 
     if isinstance(definition, dict):
+        # the definition we were given isn't ours to change
+        definition = definition.copy()
         if definition.get("fields"):  # type:ignore
             definition["columns"] = definition.pop("fields")  # type:ignore
 
-- 
2.43.0


From dd50e35f59dd63675d456b97e1663d2f8d610e1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:24 +0000
Subject: [PATCH 68/68] fix: pydantic models are only accepted as records if
 their class is called BaseModel

---
 mabel/data/writers/database_writer.py | 2 +-
 mabel/data/writers/writer.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index 28519ed..b88b97e 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -86,7 +86,7 @@ class DatabaseWriter:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if any("BaseModel" in str(base) for base in type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 57ff917..8b6d217 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -128,7 +128,7 @@ class Writer:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if any("BaseModel" in str(base) for base in type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
-- 
2.43.0

