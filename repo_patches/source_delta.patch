From fb3147a2972bf6c6c08deb7c858e924731394e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 01/17] fix: compare regular grid increments with an absolute
 tolerance only

np.allclose applies a relative tolerance of 1e-5 of its second argument by
default, which made grid equality asymmetric and wider than the intended 1e-6.
---
 src/earthkit/regrid/gridspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 0a87c03..37bda6e 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -104,7 +104,7 @@ class GridSpec(dict):
             else:
                 return v1 == v2
         elif key == "grid" and isinstance(v1, list) and isinstance(v2, list):
-            return np.allclose(np.array(v1), np.array(v2), atol=1e-6)
+            return np.allclose(np.array(v1), np.array(v2), rtol=0, atol=1e-6)
         elif isinstance(v1, list) and isinstance(v2, list):
             return v1 == v2
         elif isinstance(v1, float) and isinstance(v2, float):
-- 
2.43.0


From bfc704b45871da711e34d5ad16365febf9f3a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 02/17] fix: reject grid names with text after the grid number

'O32abc' or 'H8x' were accepted (prefix match) as reduced Gaussian / HEALPix
grids instead of being reported as unsupported.
---
 src/earthkit/regrid/gridspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 37bda6e..7790d34 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -18,8 +18,8 @@ FULL_GLOBE = 360.0
 FULL_GLOBE_EPS = 1e-8
 DEGREE_EPS = 1e-8
 
-HEALPIX_PATTERN = re.compile(r"[Hh]\d+")
-RGG_PATTERN = re.compile(r"[OoNn]\d+")
+HEALPIX_PATTERN = re.compile(r"^[Hh]\d+$")
+RGG_PATTERN = re.compile(r"^[OoNn]\d+$")
 ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUV]$")
 
 
-- 
2.43.0


From 31b1fe035b68c682d18ef81dc8958454b9cf7117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 03/17] fix: refuse a limited memory cache without a limit
 instead of failing with TypeError

---
 src/earthkit/regrid/utils/memcache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..53a0b78 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -114,10 +114,10 @@ class LRUPolicy(MemoryCachePolicy):
     name = "lru"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -142,10 +142,10 @@ class LargestPolicy(MemoryCachePolicy):
     name = "largest"
 
     def check(self):
-        if self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
         if self.cache.max_mem is None:
             raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
+        if self.cache.max_mem <= 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
 
     def reduce(self, target_size):
         # must be called within a lock
-- 
2.43.0


From bda284f38e5d92c60501bb374fa914d4158acdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 04/17] fix: keep the previous memory cache settings when new
 ones are refused

---
 src/earthkit/regrid/utils/memcache.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 53a0b78..0b24623 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -304,14 +304,20 @@ class MemoryCache:
                 return False
 
             with self.lock:
-                if any(
-                    [
-                        _update("max_mem", self.MAX_SIZE_KEY),
-                        _update("strict", self.STRICT_KEY),
-                        _update_policy(),
-                    ]
-                ):
-                    self._reduce()
+                saved = self.max_mem, self.strict, self.policy
+                try:
+                    if any(
+                        [
+                            _update("max_mem", self.MAX_SIZE_KEY),
+                            _update("strict", self.STRICT_KEY),
+                            _update_policy(),
+                        ]
+                    ):
+                        self._reduce()
+                except Exception:
+                    # refused: keep working with the previous settings
+                    self.max_mem, self.strict, self.policy = saved
+                    raise
 
     def _reduce(self, target_size=None):
         # must be called within a lock
-- 
2.43.0


From b7fd978f309ae04bd84cb59df479671a398b0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 05/17] fix: do not share cached weights between inventories

---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..5bd30a9 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -473,6 +473,7 @@ class MatrixDb:
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
+            source=str(self.matrix_source()),
             **kwargs,
         )
 
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 0b24623..270c9ac 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, create=None, find_entry=None, create_from_entry=None, source=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,8 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            # the same arguments can give different results in different inventories
+            key = make_sha((source, *args))
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From 37d34b7e65fdec34cb1535bc3f135f4801622cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 06/17] fix: leave a temporary configuration when an observer
 rejects it on entry

---
 src/earthkit/regrid/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..bc62c3d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -232,8 +232,8 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
         CONFIG._stack.pop()
-- 
2.43.0


From 4e645ed6f2805dc0947cad6dd1848133ea1319bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 07/17] fix: remove a cache lock file only while it is held

---
 src/earthkit/regrid/utils/caching.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..00729a9 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1025,10 +1025,11 @@ def cache_file(
                     CACHE._update_entry(path, owner_data)
                     CACHE.check_size()
 
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
+                # while the lock is still held: afterwards it may be another requester's
+                try:
+                    os.unlink(lock)
+                except OSError:
+                    pass
 
     else:
         # path can be a file or a directory. We have to make the name unique.
@@ -1053,10 +1054,11 @@ def cache_file(
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
                     owner_data = create(path + ".tmp", args)
                     os.rename(path + ".tmp", path)
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
+
+                try:
+                    os.unlink(lock)
+                except OSError:
+                    pass
 
     return path
 
-- 
2.43.0


From b28fd8f6ca83f97d41ea67f4286faeaf1300d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 08/17] fix: identify a backend by its name, positional and
 named arguments separately

---
 src/earthkit/regrid/backends/__init__.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/backends/__init__.py b/src/earthkit/regrid/backends/__init__.py
index 8675141..f92a14d 100644
--- a/src/earthkit/regrid/backends/__init__.py
+++ b/src/earthkit/regrid/backends/__init__.py
@@ -57,11 +57,7 @@ class BackendMaker:
         self.BACKENDS = self._builtins()
 
     def _make_key(self, name, *args, **kwargs):
-        if args or kwargs:
-            key = [name, *args, *list(kwargs.items())]
-            return tuple(key)
-        else:
-            return name
+        return (name, args, frozenset(kwargs.items()))
 
     def __call__(self, name, *args, **kwargs):
         loader = BackendLoader()
-- 
2.43.0


From a556e81bb303b602e2ec0348f0242886d642651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 09/17] fix: accept the target of a converted MIR matrix as
 text

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..b6a6c6a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -66,7 +66,7 @@ def mir_cached_matrix_to_array(path):
 
 
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if not Path(target).suffix == ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-- 
2.43.0


From c5eceeea0547f22bc91d4d4521591e266f91ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 10/17] fix: do not take an inventory whose index cannot be
 loaded for an empty one

---
 src/earthkit/regrid/backends/db.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 5bd30a9..7723fa9 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -439,9 +439,9 @@ class MatrixDb:
         return self._index
 
     def _load_index(self):
-        self._index = MatrixIndex()
-        path = self._accessor.index_path()
-        self._index.load(path)
+        index = MatrixIndex()
+        index.load(self._accessor.index_path())
+        self._index = index
 
     def _method_alias(self, method):
         for k, v in _METHOD_ALIAS.items():
-- 
2.43.0


From e59363278c809add750d4177e4d78f560db43c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 11/17] fix: check a remote inventory once, whatever is known
 of the cached copy, and never a local one

---
 src/earthkit/regrid/backends/db.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 7723fa9..3e79882 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -105,7 +105,7 @@ class UrlAccessor(MatrixAccessor):
         return self._url
 
     def is_local(self):
-        False
+        return False
 
     def checked_remote(self):
         return self._checked_remote
@@ -116,6 +116,7 @@ class UrlAccessor(MatrixAccessor):
 
     def reload(self, force=False):
         self._index_path = self._get_index(check_remote=True, force=force)
+        self._checked_remote = True
 
     def index_path(self):
         if self._index_path is None or not os.path.exists(self._index_path):
@@ -139,7 +140,6 @@ class UrlAccessor(MatrixAccessor):
                 return True
 
             remote_sha = self._remote_sha()
-            self._checked_remote = True
 
             if local_sha != remote_sha:
                 LOG.info(
@@ -162,7 +162,6 @@ class UrlAccessor(MatrixAccessor):
             """Decide if the index file should be downloaded and cached again."""
             LOG.info("UrlAccessor: forcefully download remote checksum and new index file")
             self._remote_sha()
-            self._checked_remote = True
             return True
 
         def _create(target, args):
@@ -279,7 +278,7 @@ class LocalAccessor(MatrixAccessor):
         return self._path
 
     def is_local(self):
-        True
+        return True
 
     def index_path(self):
         return os.path.join(self._path, _INDEX_FILENAME)
-- 
2.43.0


From 9b10d79769d51c8be8c6e668717113d011d88dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 12/17] fix: take only what is inside the cache directory for a
 file of the cache

---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 00729a9..9f3722b 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -624,7 +624,8 @@ class CachePolicy(metaclass=ABCMeta):
         pass
 
     def file_in_cache_directory(self, path):
-        return path.startswith(self.directory())
+        top = os.path.abspath(self.directory())
+        return os.path.abspath(path).startswith(os.path.join(top, ""))
 
     @staticmethod
     def _expand_path(path):
-- 
2.43.0


From 9ee7176d971c79fc1fd315fa82a559c994f7228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 13/17] fix: create temporary files under
 temporary-directory-root when the cache is off

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9f3722b..0a87ec4 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -564,6 +564,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0


From 73dd8d2b4ec11b8ffabccc84e02db61bdbb14989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 14/17] fix: trim the cache by its size after the housekeeping

---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 0a87ec4..2fc4248 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -497,7 +497,8 @@ class CacheManager(threading.Thread):
                 size = self._cache_size()
                 if size > maximum:
                     self._housekeeping()
-                    self._decache(size - maximum)
+                    # the housekeeping may have registered more files
+                    self._decache(self._cache_size() - maximum)
 
             # Check relative limit
             usage = self._policy.maximum_cache_disk_usage()
-- 
2.43.0


From 6cad7777728275cb419af89118bb18c362283d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 15/17] fix: return the regridded values of integer xarray data
 as floats

---
 src/earthkit/regrid/data/xarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..23e2197 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -325,7 +325,8 @@ class XarrayDataHandler(DataHandler):
                     "output_sizes": {dim: out_geo.shape[i] for i, dim in enumerate(out_dims)},
                     "allow_rechunk": True,
                 },
-                output_dtypes=[da.dtype],
+                # the regridded values are floats, also when the input values are not
+                output_dtypes=[da.dtype if da.dtype.kind in "fc" else float],
             )
 
         if isinstance(values, xr.Dataset):
-- 
2.43.0


From 0afbb23181a8d3144d90e8ce08a513ad4f68054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 16/17] fix: leave the automatic nearest method to MIR and pass
 it distances as floats

---
 src/earthkit/regrid/backends/mir.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 98fb6a0..e60ff34 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -94,10 +94,14 @@ class MirBackend(Backend):
         kwargs = {
             "interpolation": interpolation,
             "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
+            # MIR takes these as floating point numbers only
+            "distance": float(distance),
+            "distance_tolerance": float(distance_tolerance),
             "nclosest": nclosest,
         }
+        if nearest_method == "automatic":
+            # the choice is left to MIR, which does not know a method of this name
+            kwargs.pop("nearest_method")
 
         out_grid, kwargs = self.adjust_options(grid, kwargs)
 
-- 
2.43.0


From d697e95591ff8ce7cfcb01b0a0807584de44761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 17/17] fix: pass the nearest options on to MIR for arrays as
 for messages

---
 src/earthkit/regrid/backends/mir.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index e60ff34..84bc68a 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -54,14 +54,17 @@ class MirBackend(Backend):
         import mir
 
         kwargs = {
-            "interpolation": interpolation,
             "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
+            # MIR takes these as floating point numbers only
+            "distance": float(distance),
+            "distance_tolerance": float(distance_tolerance),
             "nclosest": nclosest,
         }
+        if nearest_method == "automatic":
+            # the choice is left to MIR, which does not know a method of this name
+            kwargs.pop("nearest_method")
 
-        out_grid, kwargs = self.adjust_options(out_grid, {})
+        out_grid, kwargs = self.adjust_options(out_grid, kwargs)
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
-- 
2.43.0

