From ac94a08d492b56d0cf84bf0f77521950b7b9ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 01/29] fix: save a snapshot through a staging directory so
 that an interrupted save never mixes or damages snapshots

---
 bm25s/__init__.py     | 63 +++++++++++++++++++++++++++++++++++++++++--
 bm25s/utils/corpus.py |  6 +++++
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 2ca7691..9c64b5b 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -4,6 +4,8 @@ from functools import partial
 
 import os
 import logging
+import shutil
+import tempfile
 from pathlib import Path
 import json
 from typing import Any, Tuple, Dict, Iterable, List, NamedTuple, Union
@@ -899,9 +901,66 @@ class BM25:
             If True, the arrays will be saved using pickle. If False, the arrays will be saved
             in a more efficient format, but they will not be readable by older versions of numpy.
         """
+        # We never write into the files of an existing snapshot: they may be memory-mapped by
+        # a loaded index (possibly this one), and an interrupted save must not leave a mix of
+        # two snapshots. Everything is written to a staging directory, then moved into place.
+        target_dir = Path(save_dir)
+        target_dir.mkdir(parents=True, exist_ok=True)
+        staging_dir = Path(tempfile.mkdtemp(prefix=".saving-", dir=target_dir))
+
+        try:
+            for name in (data_name, indices_name, indptr_name, vocab_name, params_name, nnoc_name, corpus_name):
+                (staging_dir / name).parent.mkdir(parents=True, exist_ok=True)
+
+            self._write_snapshot(
+                save_dir=staging_dir,
+                corpus=corpus,
+                data_name=data_name,
+                indices_name=indices_name,
+                indptr_name=indptr_name,
+                vocab_name=vocab_name,
+                params_name=params_name,
+                nnoc_name=nnoc_name,
+                corpus_name=corpus_name,
+                allow_pickle=allow_pickle,
+            )
+
+            # The snapshot cannot be loaded without its parameters: they are removed before
+            # the first file is replaced, and put in place after the last one. Likewise, a
+            # corpus is never next to the line index of another corpus.
+            params_path = target_dir / params_name
+            corpus_path = target_dir / corpus_name
+            params_path.unlink(missing_ok=True)
+
+            if (staging_dir / corpus_name).exists():
+                utils.corpus.delete_mmindex(corpus_path)
+
+            files = [f for f in staging_dir.rglob("*") if f.is_file()]
+            files = sorted(f.relative_to(staging_dir) for f in files)
+            files.sort(key=lambda f: (f == Path(params_name), f != Path(corpus_name)))
+            for file in files:
+                (target_dir / file).parent.mkdir(parents=True, exist_ok=True)
+                os.replace(staging_dir / file, target_dir / file)
+        finally:
+            shutil.rmtree(staging_dir, ignore_errors=True)
+
+    def _write_snapshot(
+        self,
+        save_dir,
+        corpus,
+        data_name,
+        indices_name,
+        indptr_name,
+        vocab_name,
+        params_name,
+        nnoc_name,
+        corpus_name,
+        allow_pickle,
+    ):
+        """
+        Write the files of a snapshot to `save_dir`, used by the `save` method.
+        """
         # Save the self.vocab_dict and self.score_matrix to the save_dir
-        save_dir = Path(save_dir)
-        save_dir.mkdir(parents=True, exist_ok=True)
 
         # Save the scores arrays
         data_path = save_dir / data_name
diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index b06ebba..eb0b1c8 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -58,6 +58,12 @@ def save_mmindex(indexes, path, encoding="utf-8"):
         f.write(json_functions.dumps(indexes))
 
 
+def delete_mmindex(path):
+    index_file = change_extension(path, ".mmindex.json")
+    if os.path.exists(index_file):
+        os.remove(index_file)
+
+
 def load_mmindex(path, encoding="utf-8"):
     path = str(path)
     index_file = change_extension(path, ".mmindex.json")
-- 
2.43.0


From 5ab05c655d8b4783fb3fa59f96296e4b6f550585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 02/29] fix: locate the line index of a corpus file without an
 extension next to it

---
 bm25s/utils/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index eb0b1c8..8d89bc4 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -21,7 +21,8 @@ from . import json_functions
 
 def change_extension(path, new_extension):
     path = str(path)
-    return path.rpartition(".")[0] + new_extension
+    # only the file name can have an extension, not the directories above it
+    return os.path.splitext(path)[0] + new_extension
 
 
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
-- 
2.43.0


From f45ae588b3ab195abb90aa365f139be31c63d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 03/29] fix: create the line index of a corpus atomically

---
 bm25s/utils/corpus.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 8d89bc4..c798e26 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -1,6 +1,7 @@
 import logging
 import mmap
 import os
+import threading
 
 import numpy as np
 
@@ -55,8 +56,16 @@ def find_newline_positions(path, show_progress=True, leave_progress=True, encodi
 def save_mmindex(indexes, path, encoding="utf-8"):
     path = str(path)
     index_file = change_extension(path, ".mmindex.json")
-    with open(index_file, "w", encoding=encoding) as f:
-        f.write(json_functions.dumps(indexes))
+    # the line index is a cache that later runs rely on: it must never exist half-written
+    temp_file = f"{index_file}.{os.getpid()}-{threading.get_ident()}.tmp"
+    try:
+        with open(temp_file, "w", encoding=encoding) as f:
+            f.write(json_functions.dumps(indexes))
+        os.replace(temp_file, index_file)
+    except BaseException:
+        if os.path.exists(temp_file):
+            os.remove(temp_file)
+        raise
 
 
 def delete_mmindex(path):
-- 
2.43.0


From 41188c58c156a02d04334fb5cd35b685933db9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 04/29] fix: read lines of a memory-mapped corpus without
 moving its shared position

---
 bm25s/utils/corpus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index c798e26..5b79ba5 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -103,8 +103,11 @@ def get_line(
     else:
         CLOSE_MMAP = False
 
-    mmap_obj.seek(mmindex[index])
-    result = mmap_obj.readline().decode(encoding)
+    # the map may be shared between threads, so we do not rely on its file position
+    start = mmindex[index]
+    newline = mmap_obj.find(b"\n", start)
+    end = newline + 1 if newline != -1 else len(mmap_obj)
+    result = mmap_obj[start:end].decode(encoding)
 
     if CLOSE_MMAP:
         mmap_obj.close()
-- 
2.43.0


From 512a0117ce99514802405f2e4038a9c21daa0904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 05/29] fix: keep documents aligned with their positions when
 one cannot be saved

---
 bm25s/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 9c64b5b..c40500e 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -1016,16 +1016,19 @@ class BM25:
                         doc = doc
                     else:
                         logging.warning(
-                            f"Document at index {i} is not a string, dictionary, list or tuple. Skipping."
+                            f"Document at index {i} is not a string, dictionary, list or tuple. Saving null instead."
                         )
-                        continue
+                        doc = None
 
+                    # a document that cannot be saved still takes a line, otherwise all
+                    # the documents after it would be returned for the wrong positions
                     try:
                         doc_str = json_functions.dumps(doc, ensure_ascii=False)
                     except Exception as e:
                         logging.warning(f"Error saving document at index {i}: {e}")
-                    else:
-                        f.write(doc_str + "\n")
+                        doc_str = "null"
+
+                    f.write(doc_str + "\n")
 
             # also save corpus.mmindex
             mmidx = utils.corpus.find_newline_positions(save_dir / corpus_name)
-- 
2.43.0


From c528544a4d8261acd2831704cf4891ee96c55af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 06/29] fix: escape non-ASCII characters as valid JSON when
 using orjson

---
 bm25s/utils/json_functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 683bf88..c86f9a6 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -1,19 +1,23 @@
 import json
+import re
 
 try:
     import orjson
     ORJSON_AVAILABLE = True
 except ImportError:
     ORJSON_AVAILABLE = False
-    
+
+_NON_ASCII = re.compile(r"[^\x00-\x7f]+")
 
 def dumps_with_builtin(d: dict, **kwargs) -> str:
     return json.dumps(d, **kwargs)
 
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
-        # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        # Simulate `ensure_ascii=True` by escaping non-ASCII characters the way JSON does
+        return _NON_ASCII.sub(
+            lambda match: json.dumps(match.group())[1:-1], orjson.dumps(d).decode("utf-8")
+        )
     # Ignore other kwargs not supported by orjson
     return orjson.dumps(d).decode("utf-8")
 
-- 
2.43.0


From da902c0559dfca6967a692304e699bdd56b074b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 07/29] fix: apply the weight mask in the numba backend as in
 the others

---
 bm25s/__init__.py             |  1 +
 bm25s/numba/retrieve_utils.py | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index c40500e..9f9fedd 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -792,6 +792,7 @@ class BM25:
                 dtype=self.dtype,
                 int_dtype=self.int_dtype,
                 nonoccurrence_array=self.nonoccurrence_array,
+                weight_mask=weight_mask,
             )
 
             if return_as == "tuple":
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index c7fee7e..33d9b26 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -43,15 +43,15 @@ def _retrieve_internal_jitted_parallel(
             dtype=dtype,
         )
 
+        if weight_mask is not None:
+            scores_single = scores_single * weight_mask
+
         # if there's a non-occurrence array, we need to add the non-occurrence score
         # back to the scores
         if nonoccurrence_array is not None:
             nonoccurrence_scores = nonoccurrence_array[query_tokens_single].sum()
             scores_single += nonoccurrence_scores
 
-        if weight_mask is not None:
-            scores_single = scores_single * weight_mask
-        
         topk_scores_sing, topk_indices_sing = _numba_sorted_top_k(
             scores_single, k=k, sorted=sorted
         )
@@ -114,6 +114,10 @@ def _retrieve_numba_functional(
     query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
     query_tokens_ids_flat = np.concatenate(query_tokens_ids).astype(int_dtype)
 
+    # numba needs the masked scores to keep their type
+    if weight_mask is not None:
+        weight_mask = weight_mask.astype(dtype)
+
     retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
         query_pointers=query_pointers,
         query_tokens_ids_flat=query_tokens_ids_flat,
-- 
2.43.0


From 14a05f3cd1188c5eeb9478bdf0654c8e352e0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 08/29] fix: restore the number of numba threads when a
 retrieval fails

---
 bm25s/numba/retrieve_utils.py | 59 ++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 33d9b26..dfd5fcc 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -106,35 +106,36 @@ def _retrieve_numba_functional(
     
     # get og thread count
     og_n_threads = get_num_threads()
-    set_num_threads(n_threads)
-
-
-    # convert query_tokens_ids from list of list to a flat 1-d np.ndarray with
-    # pointers to the start of each query to be used to find the boundaries of each query
-    query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
-    query_tokens_ids_flat = np.concatenate(query_tokens_ids).astype(int_dtype)
-
-    # numba needs the masked scores to keep their type
-    if weight_mask is not None:
-        weight_mask = weight_mask.astype(dtype)
-
-    retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
-        query_pointers=query_pointers,
-        query_tokens_ids_flat=query_tokens_ids_flat,
-        k=k,
-        sorted=sorted,
-        dtype=np.dtype(dtype),
-        int_dtype=np.dtype(int_dtype),
-        data=scores["data"],
-        indptr=scores["indptr"],
-        indices=scores["indices"],
-        num_docs=scores["num_docs"],
-        nonoccurrence_array=nonoccurrence_array,
-        weight_mask=weight_mask,
-    )
-
-    # reset the number of threads
-    set_num_threads(og_n_threads)
+
+    try:
+        set_num_threads(n_threads)
+
+        # convert query_tokens_ids from list of list to a flat 1-d np.ndarray with
+        # pointers to the start of each query to be used to find the boundaries of each query
+        query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
+        query_tokens_ids_flat = np.concatenate(query_tokens_ids).astype(int_dtype)
+
+        # numba needs the masked scores to keep their type
+        if weight_mask is not None:
+            weight_mask = weight_mask.astype(dtype)
+
+        retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
+            query_pointers=query_pointers,
+            query_tokens_ids_flat=query_tokens_ids_flat,
+            k=k,
+            sorted=sorted,
+            dtype=np.dtype(dtype),
+            int_dtype=np.dtype(int_dtype),
+            data=scores["data"],
+            indptr=scores["indptr"],
+            indices=scores["indices"],
+            num_docs=scores["num_docs"],
+            nonoccurrence_array=nonoccurrence_array,
+            weight_mask=weight_mask,
+        )
+    finally:
+        # reset the number of threads, also when the retrieval fails
+        set_num_threads(og_n_threads)
 
     if corpus is None:
         retrieved_docs = retrieved_indices
-- 
2.43.0


From 5e2f0262e03abb2371d34f8f1ac9d75464cf5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 09/29] fix: accept batches of queries that start with an empty
 query

---
 bm25s/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 9f9fedd..5ad99b5 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -96,7 +96,9 @@ def is_list_of_list_of_type(obj, type_=int):
     if len(obj) == 0:
         return False
 
-    first_elem = obj[0]
+    # the lists may start with empty ones, which do not tell the type of the tokens
+    non_empty = (elem for elem in obj if not (isinstance(elem, list) and len(elem) == 0))
+    first_elem = next(non_empty, [])
     if not isinstance(first_elem, list):
         return False
 
@@ -701,7 +703,7 @@ class BM25:
                     for token_id in query
                     if token_id in self.unique_token_ids_set
                 ]
-                if len(query_filtered) == 0:
+                if len(query_filtered) == 0 and len(query) > 0:
                     if "" not in self.vocab_dict:
                         raise ValueError(
                             "The query does not contain any tokens that are in the vocabulary. "
@@ -772,6 +774,9 @@ class BM25:
                 query_tokens_ids = query_tokens
             elif is_list_of_list_of_type(query_tokens, type_=str):
                 query_tokens_ids = [self.get_tokens_ids(q) for q in query_tokens]
+            elif isinstance(query_tokens, list) and all(q == [] for q in query_tokens):
+                # all the queries are empty
+                query_tokens_ids = query_tokens
             else:
                 raise ValueError(
                     "The query_tokens must be a list of list of tokens (str for stemmed words, int for token ids matching corpus) or a tuple of two lists: the first list is the list of unique token IDs, and the second list is the list of token IDs for each document."
-- 
2.43.0


From 4b302d93e49c24d5d4551cc343544570624dfff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 10/29] fix: let queries reduce to an empty token that no
 document contains

---
 bm25s/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 5ad99b5..4387e74 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -486,7 +486,13 @@ class BM25:
                 pass
             
             if "" not in vocab_dict:
-                vocab_dict[""] = max(vocab_dict.values()) + 1
+                vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
+                # it is in no document: we add an empty column, so that it can be queried
+                scores["indptr"] = np.append(scores["indptr"], scores["indptr"][-1:])
+                if self.nonoccurrence_array is not None:
+                    self.nonoccurrence_array = np.append(
+                        self.nonoccurrence_array, self.nonoccurrence_array.dtype.type(0)
+                    )
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From 5e40cb5f4b44b19863bf82916baaa9d0b7e52662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 11/29] fix: keep the current index when building a new one
 fails

---
 bm25s/__init__.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 4387e74..7af8120 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -452,6 +452,24 @@ class BM25:
         leave_progress : bool
             If True, the progress bars will remain after the function completes.
         """
+        # the attributes of the index go together: if the build fails or is interrupted
+        # at any point, we keep the current index rather than a mix of the two
+        current_state = self.__dict__.copy()
+
+        try:
+            self._build_index(
+                corpus,
+                create_empty_token=create_empty_token,
+                show_progress=show_progress,
+                leave_progress=leave_progress,
+            )
+        except BaseException:
+            self.__dict__ = current_state
+            raise
+
+    def _build_index(
+        self, corpus, create_empty_token, show_progress, leave_progress
+    ):
         inferred_corpus_obj = self._infer_corpus_object(corpus)
 
         if inferred_corpus_obj == "tokens":
-- 
2.43.0


From 5ff7e113b2ec396559e181bc13c7b1dc02f6e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 12/29] fix: index a corpus that can be iterated only once

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7af8120..7e7b5ed 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -382,6 +382,9 @@ class BM25:
         Low-level function to build the BM25 index from tokens, used by the `index` method.
         You can override this function if you want to build the index in a different way.
         """
+        # the documents are read twice, and some iterables can be read only once
+        corpus_tokens = list(corpus_tokens)
+
         unique_tokens = get_unique_tokens(
             corpus_tokens,
             show_progress=show_progress,
-- 
2.43.0


From 0f7e3488f402f343fecf0e47cebfe693bedf5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 13/29] fix: do not share the vocabulary of the caller with the
 index

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7e7b5ed..a37d116 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -493,6 +493,9 @@ class BM25:
                     "Internal error: Found an invalid corpus object, indicating `_inferred_corpus_object` is not working correctly."
                 )
 
+            # the vocabulary belongs to the caller (e.g. a tokenizer that keeps growing it)
+            vocab_dict = dict(vocab_dict)
+
             unique_token_ids = list(vocab_dict.values())
             scores = self.build_index_from_ids(
                 unique_token_ids=unique_token_ids,
-- 
2.43.0


From 671888752b8de87c674cb6c22e77a1e3e920c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 14/29] fix: index with a vocabulary that has tokens of no
 document

---
 bm25s/scoring.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bm25s/scoring.py b/bm25s/scoring.py
index 4b567e7..3fe26e2 100644
--- a/bm25s/scoring.py
+++ b/bm25s/scoring.py
@@ -53,6 +53,9 @@ def _build_idf_array(
     idf_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        # a token of the vocabulary that is in no document has no idf (nor any score)
+        if df == 0:
+            continue
         idf_array[token_id] = compute_idf_fn(df, N=n_docs)
 
     return idf_array
@@ -87,6 +90,8 @@ def _build_nonoccurrence_array(
     nonoccurrence_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        if df == 0:
+            continue
         idf = compute_idf_fn(df, N=n_docs)
         tfc = calculate_tfc_fn(
             tf_array=0, l_d=l_d, l_avg=l_avg, k1=k1, b=b, delta=delta
-- 
2.43.0


From 64bd05f468bcd7f7abf2ce9e1b24e2ad6c772b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 15/29] fix: give the empty token an id that no other token has

---
 bm25s/tokenization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 2308e01..65172dd 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -222,15 +222,16 @@ class Tokenizer:
         using_stemmer = self.stemmer is not None
             
         if allow_empty is True and update_vocab is True and "" not in self.word_to_id:
-            idx = max(self.word_to_id.values(), default=-1) + 1
-            self.word_to_id[""] = idx
-            
             if using_stemmer:
+                # ids are those of the stems, and another word may have this stem already
                 if "" not in self.word_to_stem:
                     self.word_to_stem[""] = ""
                 if "" not in self.stem_to_sid:
-                    self.stem_to_sid[""] = idx
-        
+                    self.stem_to_sid[""] = len(self.stem_to_sid)
+                self.word_to_id[""] = self.stem_to_sid[""]
+            else:
+                self.word_to_id[""] = len(self.word_to_id)
+
         for text in texts:
             if self.lower:
                 text = text.lower()
-- 
2.43.0


From bbbcde4d8188d56a002d104d23ce5e8e862a2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 16/29] fix: remove the temporary directory when publishing to
 the hub fails

---
 bm25s/hf.py | 128 +++++++++++++++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 61 deletions(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index 33955a2..2941f04 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -298,19 +298,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_vocab(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_vocab(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created, also when publishing fails
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -410,19 +412,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_stopwords(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_stopwords(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created, also when publishing fails
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -542,42 +546,44 @@ class BM25HF(BM25):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
-        # if we include the README, write it to the directory
-        if include_readme:
-            num_docs = self.scores["num_docs"]
-            num_tokens = self.scores["data"].shape[0]
-            avg_tokens_per_doc = round(num_tokens / num_docs, 2)
-
-            results = README_TEMPLATE.format(
-                username=username,
-                version=__version__,
-                repo_name=repo_name,
-                num_docs=num_docs,
-                num_tokens=num_tokens,
-                avg_tokens_per_doc=avg_tokens_per_doc,
-                k1=self.k1,
-                b=self.b,
-                delta=self.delta,
-                method=self.method,
-                idf_method=self.idf_method,
+        try:
+            self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
+            # if we include the README, write it to the directory
+            if include_readme:
+                num_docs = self.scores["num_docs"]
+                num_tokens = self.scores["data"].shape[0]
+                avg_tokens_per_doc = round(num_tokens / num_docs, 2)
+
+                results = README_TEMPLATE.format(
+                    username=username,
+                    version=__version__,
+                    repo_name=repo_name,
+                    num_docs=num_docs,
+                    num_tokens=num_tokens,
+                    avg_tokens_per_doc=avg_tokens_per_doc,
+                    k1=self.k1,
+                    b=self.b,
+                    delta=self.delta,
+                    method=self.method,
+                    idf_method=self.idf_method,
+                )
+
+                with open(os.path.join(save_dir, "README.md"), "w") as f:
+                    f.write(results)
+
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
             )
-
-            with open(os.path.join(save_dir, "README.md"), "w") as f:
-                f.write(results)
-
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        finally:
+            # delete the temporary directory if it was created, also when publishing fails
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
 
-- 
2.43.0


From 5a0bb66e9178ae94b556ee7788c6f1c0eab0bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 17/29] fix: write the model card as UTF-8 in any locale

---
 bm25s/hf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index 2941f04..5e2dbf7 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -568,7 +568,7 @@ class BM25HF(BM25):
                     idf_method=self.idf_method,
                 )
 
-                with open(os.path.join(save_dir, "README.md"), "w") as f:
+                with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
                     f.write(results)
 
             # push content of the temporary directory to the repo
-- 
2.43.0


From 4a6f59b89250ba313ccd3df8a8638f2b1379da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 18/29] fix: never take an incomplete download of a dataset for
 a complete one

---
 bm25s/utils/beir.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e14fe68..b719104 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -1,4 +1,5 @@
 import logging
+import os
 from pathlib import Path
 from typing import Dict, List, Tuple
 
@@ -147,7 +148,10 @@ def download_dataset(
             leave=False,
             disable=not show_progress,
         )
-        with open(save_zip_path, "wb") as f:
+        # an archive that is there is taken as complete by later calls, so the download
+        # gets its name only once it is complete
+        part_path = save_zip_path.with_name(f"{dataset}.zip.part")
+        with open(part_path, "wb") as f:
             response = urllib.request.urlopen(url)
             total_size = int(response.headers.get("content-length", 0))
             block_size = 8192 * 2
@@ -162,6 +166,12 @@ def download_dataset(
 
         pbar.close()
 
+        size = part_path.stat().st_size
+        if (total_size and size != total_size) or not zipfile.is_zipfile(part_path):
+            raise IOError(f"Download of {url} is incomplete ({size} of {total_size} bytes).")
+
+        os.replace(part_path, save_zip_path)
+
     # now that we have the zip file, extract it
     if unzip:
         with zipfile.ZipFile(save_zip_path, "r") as zip_ref:
-- 
2.43.0


From 47c376e4940828ec9d3367211ba2aefc0e3a7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 19/29] fix: merge the sub-collections of a dataset completely
 or not at all

---
 bm25s/utils/beir.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index b719104..0863d70 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -1,5 +1,6 @@
 import logging
 import os
+from contextlib import contextmanager
 from pathlib import Path
 from typing import Dict, List, Tuple
 
@@ -43,6 +44,17 @@ def postprocess_results_for_eval(results, scores, query_ids):
     return result_dict_for_eval
 
 
+@contextmanager
+def _write_when_complete(path):
+    """
+    Open a text file that gets its name only once it is completely written.
+    """
+    part_path = path.with_name(path.name + ".part")
+    with open(part_path, "w", encoding="utf-8") as f:
+        yield f
+    os.replace(part_path, path)
+
+
 def merge_cqa_dupstack(data_path):
     data_path = Path(data_path)
     dataset = data_path.name
@@ -53,13 +65,13 @@ def merge_cqa_dupstack(data_path):
     if not corpus_path.exists():
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
-        corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w") as f:
+        corpus_files = sorted(data_path.glob("*/corpus.jsonl"))
+        with _write_when_complete(corpus_path) as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Corpus", leave=False
                     ):
@@ -73,13 +85,13 @@ def merge_cqa_dupstack(data_path):
     # now, do the same for queries.jsonl
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
-        queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w") as f:
+        queries_files = sorted(data_path.glob("*/queries.jsonl"))
+        with _write_when_complete(queries_path) as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Queries", leave=False
                     ):
@@ -95,14 +107,14 @@ def merge_cqa_dupstack(data_path):
     qrels_path.parent.mkdir(parents=True, exist_ok=True)
 
     if not qrels_path.exists():
-        qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w") as f:
+        qrels_files = sorted(data_path.glob("*/qrels/test.tsv"))
+        with _write_when_complete(qrels_path) as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.parent.name
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     # skip first line
                     next(f2)
 
-- 
2.43.0


From 3c07430ab0b87562f0953cf45358a76b6b691d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 20/29] fix: read datasets as UTF-8 in any locale

---
 bm25s/utils/beir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 0863d70..0a0211f 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -214,7 +214,7 @@ def load_jsonl(
         raise FileNotFoundError(f"Corpus file not found at {corpus_path}")
 
     corpus = []
-    with open(corpus_path, "r") as f:
+    with open(corpus_path, "r", encoding="utf-8") as f:
         # get the number of bytes in the file
         num_lines = sum(1 for i in open(corpus_path, "rb"))
         pbar = tqdm(
@@ -280,7 +280,7 @@ def load_qrels(
         raise FileNotFoundError(f"Qrels file not found at {qrels_path}")
 
     qrels = []
-    with open(qrels_path, "r") as f:
+    with open(qrels_path, "r", encoding="utf-8") as f:
         # skip first line
         next(f)
         for line in tqdm(
-- 
2.43.0


From bfe30be2cf9e2d476cd2c017a2aa3ea68b70fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 21/29] fix: load all the relevance judgements of a query

---
 bm25s/utils/beir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 0a0211f..40659c5 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -293,7 +293,10 @@ def load_qrels(
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-        qrels = {qid: {cid: score} for qid, cid, score in qrels}
+        qrels_dict = {}
+        for qid, cid, score in qrels:
+            qrels_dict.setdefault(qid, {})[cid] = score
+        qrels = qrels_dict
 
     return qrels
 
-- 
2.43.0


From ac9a4da882f7ce108f0a87234e369d0834be0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 22/29] fix: do not count the paused time of a timer, nor count
 running time twice

---
 bm25s/utils/benchmark.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 6edf651..b8a72d3 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -49,7 +49,10 @@ class Timer:
         stop_time = time.monotonic()
         r = self.results[name]
         r["stopped"] = stop_time
-        r["elapsed"] += stop_time - r.pop("last")
+        last = r.pop("last")
+        # if it is paused, the time until the pause has been counted already
+        if not self.is_paused(name):
+            r["elapsed"] += stop_time - last
 
         if show:
             self.show(name, n_total=n_total)
@@ -66,7 +69,12 @@ class Timer:
         paused_time = time.monotonic()
         r = self.results[name]
 
+        if self.is_paused(name) or self.has_stopped(name):
+            return
+
         r["elapsed"] += paused_time - r["last"]
+        r["paused"] = paused_time
+        r.pop("resumed", None)
 
     def resume(self, name):
         # if not self.has_started(name):
@@ -78,7 +86,12 @@ class Timer:
         # if self.has_stopped(name):
         #     raise ValueError(f"Timer with name {name} already stopped.")
 
-        self.results[name]["last"] = time.monotonic()
+        if not self.is_paused(name) or self.has_stopped(name):
+            return
+
+        r = self.results[name]
+        r["last"] = r["resumed"] = time.monotonic()
+        del r["paused"]
 
     def is_paused(self, name):
         return name in self.results and "paused" in self.results[name]
-- 
2.43.0


From bb4de6a7c7a58711c5177e51028e594b4cab2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 23/29] fix: retrieve documents that are lists or tuples

---
 bm25s/__init__.py             |  2 +-
 bm25s/numba/retrieve_utils.py |  2 +-
 bm25s/utils/corpus.py         | 18 ++++++++++++++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index a37d116..7a05441 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -878,7 +878,7 @@ class BM25:
             else:
                 index_flat = indices.flatten().tolist()
                 results = [corpus[i] for i in index_flat]
-                retrieved_docs = np.array(results).reshape(indices.shape)
+                retrieved_docs = utils.corpus.documents_to_array(results, indices.shape)
 
         if return_as == "tuple":
             return Results(documents=retrieved_docs, scores=scores)
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index dfd5fcc..4b4d357 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -148,7 +148,7 @@ def _retrieve_numba_functional(
         else:
             index_flat = retrieved_indices.flatten().tolist()
             results = [corpus[i] for i in index_flat]
-            retrieved_docs = np.array(results).reshape(retrieved_indices.shape)
+            retrieved_docs = utils.corpus.documents_to_array(results, retrieved_indices.shape)
 
     if return_as == "tuple":
         return retrieved_docs, retrieved_scores
diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 5b79ba5..4474921 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -26,6 +26,21 @@ def change_extension(path, new_extension):
     return os.path.splitext(path)[0] + new_extension
 
 
+def documents_to_array(documents, shape):
+    """
+    Convert a list of documents to an array of documents of the given shape.
+    """
+    if any(isinstance(doc, (list, tuple)) for doc in documents):
+        # numpy would take the items of the documents for further dimensions
+        array = np.empty(len(documents), dtype=object)
+        for i, doc in enumerate(documents):
+            array[i] = doc
+    else:
+        array = np.array(documents)
+
+    return array.reshape(shape)
+
+
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
     path = str(path)
     indexes = []
@@ -193,8 +208,7 @@ class JsonlCorpus:
             # was a list, and then reshape it back to the original shape
             index_flat = index.flatten().tolist()
             results = [self.__getitem__(i) for i in index_flat]
-            reshaped = np.array(results).reshape(index.shape)
-            return reshaped
+            return documents_to_array(results, index.shape)
         
         raise TypeError("Invalid index type")
 
-- 
2.43.0


From 982df2ff0b97dafa1e3081654e4e8466eb6bebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 24/29] fix: retrieve documents of different types unchanged

---
 bm25s/utils/corpus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 4474921..70c0c6b 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -30,8 +30,9 @@ def documents_to_array(documents, shape):
     """
     Convert a list of documents to an array of documents of the given shape.
     """
-    if any(isinstance(doc, (list, tuple)) for doc in documents):
-        # numpy would take the items of the documents for further dimensions
+    if any(isinstance(doc, (list, tuple)) for doc in documents) or len(set(map(type, documents))) > 1:
+        # numpy would take the items of the documents for further dimensions, or convert
+        # documents of different types (e.g. numbers and strings) to a common one
         array = np.empty(len(documents), dtype=object)
         for i, doc in enumerate(documents):
             array[i] = doc
-- 
2.43.0


From b37569366c9fdc0fc6660a25a69f81be583138a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 25/29] fix: keep the line index saved with a newer corpus

---
 bm25s/utils/corpus.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 70c0c6b..0dd4d53 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -69,7 +69,7 @@ def find_newline_positions(path, show_progress=True, leave_progress=True, encodi
     return indexes[:-1]
 
 
-def save_mmindex(indexes, path, encoding="utf-8"):
+def save_mmindex(indexes, path, encoding="utf-8", overwrite=True):
     path = str(path)
     index_file = change_extension(path, ".mmindex.json")
     # the line index is a cache that later runs rely on: it must never exist half-written
@@ -77,11 +77,18 @@ def save_mmindex(indexes, path, encoding="utf-8"):
     try:
         with open(temp_file, "w", encoding=encoding) as f:
             f.write(json_functions.dumps(indexes))
-        os.replace(temp_file, index_file)
-    except BaseException:
+        if overwrite:
+            os.replace(temp_file, index_file)
+        else:
+            try:
+                os.link(temp_file, index_file)
+            except FileExistsError:
+                pass
+            except OSError:  # no hard links on this file system
+                os.replace(temp_file, index_file)
+    finally:
         if os.path.exists(temp_file):
             os.remove(temp_file)
-        raise
 
 
 def delete_mmindex(path):
@@ -175,7 +182,8 @@ class JsonlCorpus:
                 path, show_progress=show_progress, leave_progress=leave_progress, encoding=self.encoding
             )
             if save_index:
-                save_mmindex(mmindex, path, encoding=self.encoding)
+                # if there is one by now, it was saved with another corpus of that name
+                save_mmindex(mmindex, path, encoding=self.encoding, overwrite=False)
 
             self.mmindex = mmindex
 
-- 
2.43.0


From 4cef50b79e28cf2ef77f74ea8183b07a719a45c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 26/29] fix: refuse an index that is overwritten while it is
 being loaded

---
 bm25s/__init__.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7a05441..070c66c 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -1199,6 +1199,49 @@ class BM25:
         with open(params_path, "r") as f:
             params: dict = json_functions.loads(f.read())
 
+            bm25_obj = cls._load_snapshot(
+                save_dir=save_dir,
+                params=params,
+                data_name=data_name,
+                indices_name=indices_name,
+                indptr_name=indptr_name,
+                vocab_name=vocab_name,
+                nnoc_name=nnoc_name,
+                corpus_name=corpus_name,
+                load_corpus=load_corpus,
+                mmap=mmap,
+                allow_pickle=allow_pickle,
+                load_vocab=load_vocab,
+            )
+
+            # A save removes the parameters before it replaces the first file. If they are no
+            # longer the ones read above, the files may come from two different snapshots.
+            if not params_path.exists() or not os.path.samestat(
+                os.fstat(f.fileno()), os.stat(params_path)
+            ):
+                raise OSError(f"The index in {save_dir} was overwritten while it was being loaded.")
+
+        return bm25_obj
+
+    @classmethod
+    def _load_snapshot(
+        cls,
+        save_dir,
+        params,
+        data_name,
+        indices_name,
+        indptr_name,
+        vocab_name,
+        nnoc_name,
+        corpus_name,
+        load_corpus,
+        mmap,
+        allow_pickle,
+        load_vocab,
+    ):
+        """
+        Load the files of a snapshot from `save_dir`, used by the `load` method.
+        """
         # Load the vocab dictionary
         if load_vocab:
             vocab_path = save_dir / vocab_name
-- 
2.43.0


From f143482fea37545d7e21b05a4cf0a70b65df5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 27/29] fix: let several processes fetch a dataset at the same
 time

---
 bm25s/utils/beir.py | 52 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 40659c5..2fe3476 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -1,5 +1,8 @@
 import logging
 import os
+import shutil
+import tempfile
+import uuid
 from contextlib import contextmanager
 from pathlib import Path
 from typing import Dict, List, Tuple
@@ -45,14 +48,35 @@ def postprocess_results_for_eval(results, scores, query_ids):
 
 
 @contextmanager
-def _write_when_complete(path):
+def _write_when_complete(path, mode="w", encoding="utf-8"):
     """
-    Open a text file that gets its name only once it is completely written.
+    Open a file that gets its name only once it is completely written.
     """
-    part_path = path.with_name(path.name + ".part")
-    with open(part_path, "w", encoding="utf-8") as f:
-        yield f
-    os.replace(part_path, path)
+    # another process may be writing the same file
+    part_path = path.with_name(f"{path.name}.{uuid.uuid4().hex}.part")
+    try:
+        with open(part_path, mode, encoding=encoding) as f:
+            yield f
+        os.replace(part_path, path)
+    finally:
+        part_path.unlink(missing_ok=True)
+
+
+def _extract_when_complete(zip_ref, save_dir):
+    """
+    Extract an archive such that each of its files gets its name only once it is complete.
+    """
+    part_dir = Path(tempfile.mkdtemp(prefix=".extracting-", dir=save_dir))
+    try:
+        zip_ref.extractall(part_dir)
+        for path in sorted(part_dir.rglob("*")):
+            target_path = save_dir / path.relative_to(part_dir)
+            if path.is_dir():
+                target_path.mkdir(parents=True, exist_ok=True)
+            else:
+                os.replace(path, target_path)
+    finally:
+        shutil.rmtree(part_dir, ignore_errors=True)
 
 
 def merge_cqa_dupstack(data_path):
@@ -162,8 +186,7 @@ def download_dataset(
         )
         # an archive that is there is taken as complete by later calls, so the download
         # gets its name only once it is complete
-        part_path = save_zip_path.with_name(f"{dataset}.zip.part")
-        with open(part_path, "wb") as f:
+        with _write_when_complete(save_zip_path, mode="wb", encoding=None) as f:
             response = urllib.request.urlopen(url)
             total_size = int(response.headers.get("content-length", 0))
             block_size = 8192 * 2
@@ -176,18 +199,17 @@ def download_dataset(
                 f.write(buffer)
                 pbar.update(len(buffer))
 
-        pbar.close()
-
-        size = part_path.stat().st_size
-        if (total_size and size != total_size) or not zipfile.is_zipfile(part_path):
-            raise IOError(f"Download of {url} is incomplete ({size} of {total_size} bytes).")
+            f.flush()
+            size = os.path.getsize(f.name)
+            if (total_size and size != total_size) or not zipfile.is_zipfile(f.name):
+                raise IOError(f"Download of {url} is incomplete ({size} of {total_size} bytes).")
 
-        os.replace(part_path, save_zip_path)
+        pbar.close()
 
     # now that we have the zip file, extract it
     if unzip:
         with zipfile.ZipFile(save_zip_path, "r") as zip_ref:
-            zip_ref.extractall(save_dir)
+            _extract_when_complete(zip_ref, save_dir)
 
         # if it's CQADupStack, merge the corpus, queries, and qrels
         if dataset == "cqadupstack":
-- 
2.43.0


From b14e60906469ec740498665e80df3cdd1918a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 28/29] fix: a failed allocation while a document is saved does
 not save it as null

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 070c66c..d8e127e 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -1060,6 +1060,9 @@ class BM25:
                     # the documents after it would be returned for the wrong positions
                     try:
                         doc_str = json_functions.dumps(doc, ensure_ascii=False)
+                    except MemoryError:
+                        # nothing is wrong with the document
+                        raise
                     except Exception as e:
                         logging.warning(f"Error saving document at index {i}: {e}")
                         doc_str = "null"
-- 
2.43.0


From 0f62c955d8e75fc0466bbbd63b8767d83551dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 29/29] fix: a vocabulary file that lacks a table does not
 leave the tokenizer half loaded

---
 bm25s/tokenization.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 65172dd..85811d6 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -152,9 +152,14 @@ class Tokenizer:
 
         with open(path, "r", encoding='utf-8') as f:
             d = json_functions.loads(f.read())
-            self.word_to_stem = d["word_to_stem"]
-            self.stem_to_sid = d["stem_to_sid"]
-            self.word_to_id = d["word_to_id"]
+            # the tables go together: all are read before the first one is replaced
+            word_to_stem = d["word_to_stem"]
+            stem_to_sid = d["stem_to_sid"]
+            word_to_id = d["word_to_id"]
+
+        self.word_to_stem = word_to_stem
+        self.stem_to_sid = stem_to_sid
+        self.word_to_id = word_to_id
     
     def save_stopwords(self, save_dir: str, stopwords_name: str = "stopwords.tokenizer.json"):
         """
-- 
2.43.0

