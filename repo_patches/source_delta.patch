From 91cb858f4bc49335f901af489e162d19aa0e1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 01/50] fix: give every iteration over a resource container its
 own state

---
 resync/capability_list.py | 15 ++++-----------
 resync/resource_list.py   |  9 +--------
 resync/resource_set.py    | 10 +---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..2e70781 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        ordered = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    ordered.append(self[uri])
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
         for cap in uris:
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                ordered.append(self[uri])
+        return(iter(ordered))
 
 
 class CapabilityList(ListBase):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..43bd7d3 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From fad2f9fab18acda25280babec31322efd8bb634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 02/50] fix: stop calculating only the hashes that the source
 does not provide

---
 resync/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..6256f99 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -791,10 +791,12 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in sorted(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
+        if (len(discarded) == 0):
+            return
         self.logger.info("Not calculating %s hash(es) on destination as not present "
                          "in source %s list" % (', '.join(sorted(discarded)), list_type))
 
-- 
2.43.0


From 7e12221f4c78c4d1fd25cb333d6188aabf5392bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 03/50] fix: incremental sync with hashes requires hashes() on
 ChangeList

---
 resync/list_base_with_index.py | 13 +++++++++++++
 resync/resource_list.py        | 13 -------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..d738112 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -407,6 +407,19 @@ class ListBaseWithIndex(ListBase):
             sitemap_prefix = basename[:-4]
         return(sitemap_prefix + ("%05d" % (part_number)) + sitemap_suffix)
 
+    def hashes(self):
+        """Return set of hashes used in this list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
+
     def is_file_uri(self, uri):
         """Return true if uri looks like a local file URI, false otherwise.
 
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 43bd7d3..3a57006 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -204,16 +204,3 @@ class ResourceList(ListBaseWithIndex):
             src_cur = next(src_iter, None)
         # have now gone through both lists
         return(same, updated, deleted, created)
-
-    def hashes(self):
-        """Return set of hashes uses in this resource_list."""
-        hashes = set()
-        if (self.resources is not None):
-            for resource in self:
-                if (resource.md5 is not None):
-                    hashes.add('md5')
-                if (resource.sha1 is not None):
-                    hashes.add('sha-1')
-                if (resource.sha256 is not None):
-                    hashes.add('sha-256')
-        return(hashes)
-- 
2.43.0


From 54ae74c20365d76985653b766fde0c8ab9f1becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 04/50] fix: https and other scheme URIs are not local files

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index d738112..f671226 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -426,7 +426,7 @@ class ListBaseWithIndex(ListBase):
         Test is to see whether have either an explicit file: URI or whether
         there is no scheme name.
         """
-        return(re.match(r'file:', uri) or not re.match(r'\w{3,4}:', uri))
+        return(re.match(r'file:', uri) or not re.match(r'\w+:', uri))
 
 
 class ListBaseIndexError(Exception):
-- 
2.43.0


From a4a55aebbc2bdb51a4190efadd115ac22b851ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 05/50] fix: never put more than max_sitemap_entries into one
 component sitemap

---
 resync/list_base_with_index.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index f671226..7bee71f 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -377,10 +377,11 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
-                break
+        if (len(chunk) < self.max_sitemap_entries):
+            for r in resource_iter:
+                chunk.add(r)
+                if (len(chunk) >= self.max_sitemap_entries):
+                    break
         # Get next to see whether there are more resources
         try:
             nxt = next(resource_iter)
-- 
2.43.0


From d0f243dc3726edb2d82e966e7442e48f0631d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 06/50] fix: refuse request for empty component sitemap after
 the last one

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 7bee71f..b5a778e 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -259,7 +259,7 @@ class ListBaseWithIndex(ListBase):
                 (len(self), str(
                     self.max_sitemap_entries)))
         start = part_number * self.max_sitemap_entries
-        if (start > len(self)):
+        if (start >= len(self)):
             raise ListBaseIndexError(
                 "Request for component sitemap with part_number too high, would start at entry %d yet the list has only %d entries" %
                 (start, len(self)))
-- 
2.43.0


From 19555f3b3401df71065f614edc4adf889a1c78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 07/50] fix: identical timestamps are equal also without
 tolerance

---
 resync/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/resource.py b/resync/resource.py
index 48c224b..85bf637 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -458,7 +458,8 @@ class Resource(object):
             # not equal if only one timestamp specified
             if (self.timestamp is None
                     or other.timestamp is None
-                    or abs(self.timestamp - other.timestamp) >= delta):
+                    or (self.timestamp != other.timestamp
+                        and abs(self.timestamp - other.timestamp) >= delta)):
                 return False
         if ((self.md5 is not None and other.md5 is not None)
                 and self.md5 != other.md5):
-- 
2.43.0


From 6bf2c5acec08710a95558bfedc85789696c51669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 08/50] fix: strict authority covers whole path segments only

---
 resync/url_authority.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..38a423e 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -68,6 +68,6 @@ class UrlAuthority(object):
             # b.example.org
         path = os.path.dirname(s.path)
         if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
+                and not path.startswith(self.master_path.rstrip('/') + '/')):
             return(False)
         return(True)
-- 
2.43.0


From 9bd96148540e0eec92529d0d3864617fc3b53ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 09/50] fix: mapping prefixes are literal strings, not regular
 expressions

---
 resync/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..a97e1be 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -178,7 +178,7 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
+        m = re.match(re.escape(self.dst_path) + r"(/.*)?\Z", dst_file, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
@@ -195,7 +195,7 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
+        m = re.match(re.escape(self.src_uri) + r"(/.*)?\Z", src_uri, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
-- 
2.43.0


From b5f85045e18624399b717eff77998c9b65e8e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 10/50] fix: refuse source URIs that would map outside of the
 destination

---
 resync/mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/mapper.py b/resync/mapper.py
index a97e1be..8fa0a80 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -201,6 +201,9 @@ class Map:
         rel_path = m.group(1)
         if rel_path is None:
             rel_path = '/'
+        if '..' in rel_path.split('/'):
+            # would escape from self.dst_path
+            return(None)
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From fe159c3e0c1d34fb07b6046f2754e906c1a92868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 11/50] fix: trailing slashes are insignificant in mappings,
 also for duplicates

---
 resync/mapper.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 8fa0a80..1a76ee2 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -62,19 +62,20 @@ class Mapper():
                         "Bad mapping argument (%s), got %s" %
                         (mapping, str(entry)))
                 (src_uri, dst_path) = entry
+                new_map = Map(src_uri, dst_path)
                 # Check for dupes
                 for map in self.mappings:
-                    if (src_uri == map.src_uri):
+                    if (new_map.src_uri == map.src_uri):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "source URI %s (with destination path %s)" %
                             (src_uri, dst_path))
-                    if (dst_path == map.dst_path):
+                    if (new_map.dst_path == map.dst_path):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "destination path %s (with source URI %s)" %
                             (dst_path, src_uri))
-                self.mappings.append(Map(src_uri, dst_path))
+                self.mappings.append(new_map)
 
     def default_src_uri(self):
         """Default src_uri from mapping.
@@ -162,10 +163,7 @@ class Map:
 
     def strip_trailing_slashes(self, path):
         """Return input path minus any trailing slashes."""
-        m = re.match(r"(.*)/+$", path)
-        if (m is None):
-            return(path)
-        return(m.group(1))
+        return(path.rstrip('/'))
 
     def dst_to_src(self, dst_file):
         """Return the src URI from the dst filepath.
-- 
2.43.0


From ff6043318b8954a8617d2706c1ede8754ca99554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 12/50] fix: detect unsafe mappings by path components and for
 any spelling

---
 resync/mapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 1a76ee2..7a5bad7 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -8,6 +8,7 @@ try:  # python3
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlparse  # pragma: no cover
 import logging
+from urllib.request import url2pathname
 
 
 class Mapper():
@@ -211,12 +212,11 @@ class Map:
         destination are the same, or if one is a component of the other path.
         """
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
-        if (scheme != ''):
+        if (scheme not in ('', 'file')):
             return(False)
-        s = os.path.normpath(self.src_uri)
-        d = os.path.normpath(self.dst_path)
-        lcp = os.path.commonprefix([s, d])
-        return(s == lcp or d == lcp)
+        s = os.path.realpath(url2pathname(path) if scheme == 'file' else self.src_uri)
+        d = os.path.realpath(self.dst_path)
+        return(os.path.commonpath([s, d]) in (s, d))
 
     def __repr__(self):
         """Human readable string for one map."""
-- 
2.43.0


From 56005cc114c415f202fd7b3aabb95b7c684e2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 13/50] fix: open local files whose name contains #, ? or %

---
 resync/url_or_file_open.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 4981fa4..e5d10d7 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -2,6 +2,7 @@
 
 import re
 import time
+from urllib.parse import quote
 from urllib.request import Request, urlopen
 
 from . import __version__
@@ -31,7 +32,7 @@ def url_or_file_open(uri, method=None, timeout=None):
     no timeout is specified then the global default will be used.
     """
     if (not re.match(r'''\w+:''', uri)):
-        uri = 'file:' + uri
+        uri = 'file:' + re.sub(r'[%#?]', lambda m: quote(m.group(0)), uri)
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From 4c931deac6b34f37f4390132b23bd84dfb15581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 14/50] fix: do not mangle local paths when looking for the
 source resource list

---
 resync/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 6256f99..f326b38 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -181,7 +181,6 @@ class Client(object):
         errors = []
         for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
                     urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
@@ -191,7 +190,6 @@ class Client(object):
         for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
                     urljoin(self.sitemap, 'sitemap.xml'),
                     urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From 03047bff084130ca34ddb47deef6b1dd09f9dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 15/50] fix: dry run must not create directories or record sync
 state

---
 resync/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index f326b38..c5d8407 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -314,7 +314,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -467,7 +467,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -493,13 +493,13 @@ class Client(object):
         Returns the number of resources updated/created (0 or 1)
         """
         path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
+            distutils.dir_util.mkpath(path)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From 0e55400112c64a995ce4b6f6a38b349113e6ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 16/50] fix: create destination directories even if created
 before and since removed

---
 resync/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c5d8407..28377bf 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -5,9 +5,9 @@ try:  # python3
     from urllib.parse import urlsplit, urlunsplit, urljoin
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
+import os
 import os.path
 import datetime
-import distutils.dir_util
 import re
 import time
 import logging
@@ -499,7 +499,8 @@ class Client(object):
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
-            distutils.dir_util.mkpath(path)
+            if (path != ''):
+                os.makedirs(path, exist_ok=True)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From 6eb0b6d4a1f28813bd97bc61eba550841d2e9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 17/50] fix: check authority also for explicit change list and
 honor strictauth in incremental

---
 resync/client.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 28377bf..2c64326 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -395,14 +395,13 @@ class Client(object):
         # change list URI and, if we used it, the sitemap URI
         if (not self.noauth):
             uauth_cs = UrlAuthority(change_list, self.strictauth)
-            if (not change_list_uri):
-                uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+            uauth_sm = UrlAuthority(self.sitemap, self.strictauth)
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From 3c450fb8f8a1732b72ff97a89f4fb4d7c8269df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 18/50] fix: times of extra local files must not advance the
 baseline sync state

---
 resync/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 2c64326..410c321 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -308,11 +308,15 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             self.logger.info("updated: %s -> %s" % (uri, filename))
             num_updated += self.update_resource(resource, filename, 'updated')
+        # Timestamps of resources to delete are local, not from the source, and
+        # thus must not affect the timestamp stored
+        src_last_timestamp = self.last_timestamp
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
+        self.last_timestamp = src_last_timestamp
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From 70cd169bbeffce2d3f52380a516537d9ecaa1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 19/50] fix: do not ignore deletion of a resource created since
 but already copied

---
 resync/client.py             | 13 +++++++++++--
 resync/resource_container.py |  8 +++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 410c321..772e776 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -19,7 +19,7 @@ from .resource_list import ResourceList
 from .change_list import ChangeList
 from .capability_list import CapabilityList
 from .source_description import SourceDescription
-from .mapper import Mapper
+from .mapper import Mapper, MapperError
 from .sitemap import Sitemap
 from .dump import Dump
 from .resource import Resource
@@ -413,7 +413,9 @@ class Client(object):
             self.logger.info(
                 "Skipped %d changes before %s" %
                 (num_skipped, datetime_to_str(from_timestamp)))
-        num_dupes = src_change_list.prune_dupes()
+        # (keep deletion of a resource also created in the list if there is already
+        # a local copy, perhaps from an earlier sync)
+        num_dupes = src_change_list.prune_dupes(keep_deleted=self.has_local_copy)
         if (num_dupes > 0):
             self.logger.info("Removed %d prior changes" % (num_dupes))
         # Review and log status before
@@ -479,6 +481,13 @@ class Client(object):
         # 9. Done
         self.logger.debug("Completed incremental sync")
 
+    def has_local_copy(self, uri):
+        """True if there is a local copy of the resource with given source URI."""
+        try:
+            return(os.path.isfile(self.mapper.src_to_dst(uri)))
+        except MapperError:
+            return(False)
+
     def update_resource(self, resource, filename, change=None):
         """Update resource from uri to filename on local system.
 
diff --git a/resync/resource_container.py b/resync/resource_container.py
index 0aec561..aee2eb6 100644
--- a/resync/resource_container.py
+++ b/resync/resource_container.py
@@ -208,12 +208,13 @@ class ResourceContainer(object):
             uris.append(r.uri)
         return(uris)
 
-    def prune_dupes(self):
+    def prune_dupes(self, keep_deleted=None):
         """Remove all but the last entry for a given resource URI.
 
         Returns the number of entries removed. Also removes all entries for a
         given URI where the first entry is a create and the last entry is a
-        delete.
+        delete, unless the function keep_deleted (if specified) returns True
+        for that URI.
         """
         n = 0
         pruned1 = []
@@ -232,7 +233,8 @@ class ResourceContainer(object):
         # go through all deletes and prune if first was create
         pruned2 = []
         for r in reversed(pruned1):
-            if (r.uri in deletes and deletes[r.uri] == 'created'):
+            if (r.uri in deletes and deletes[r.uri] == 'created'
+                    and not (keep_deleted and keep_deleted(r.uri))):
                 n += 1
             else:
                 pruned2.append(r)
-- 
2.43.0


From fdfb88b53075d57758f0f3c9336348d80e695b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 20/50] fix: incremental sync from change list with lastmod but
 no datetime

---
 resync/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 772e776..c252b53 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -391,7 +391,9 @@ class Client(object):
                     "Aborting - no datetime or lastmod for change in %s" %
                     (resource.uri))
             # Work with 1.0 or 1.1 -- use datetime if given, else lastmod
-            ts = resource.ts_datetime if resource.ts_datetime is not None else resource.timestamp
+            if (resource.ts_datetime is None):
+                resource.ts_datetime = resource.timestamp
+            ts = resource.ts_datetime
             if (ts > self.last_timestamp):
                 self.last_timestamp = ts
         # 4. Check that the change list has authority over URIs listed
-- 
2.43.0


From 66e18fe09ae5727444e089868e2931ecfced1eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 21/50] fix: do not count failed updates as applied in
 incremental sync

---
 resync/client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c252b53..6aa8aae 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -459,12 +459,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
-- 
2.43.0


From 20929761839918402757213e6c4293d402d7a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 22/50] fix: treat truncated and malformed HTTP responses as
 failed downloads

---
 resync/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 6aa8aae..edbcf33 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -6,6 +6,7 @@ try:  # python3
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
 import os
+from http.client import HTTPException
 import os.path
 import datetime
 import re
@@ -519,6 +520,9 @@ class Client(object):
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
+                        # http response has length not yet read, or None
+                        if (getattr(fh_in, 'length', None)):
+                            raise IOError("incomplete, %d bytes missing" % (fh_in.length))
                     num_updated += 1
                     break
                 except socket.timeout as e:
@@ -534,7 +538,7 @@ class Client(object):
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
-                except IOError as e:
+                except (IOError, HTTPException) as e:
                     msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
                     if (self.ignore_failures):
                         self.logger.warning(msg)
-- 
2.43.0


From 0f37fa2ab619cb4c1ad0aa4256cd359ceec7990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 23/50] fix: explorer HEAD of web resources

---
 resync/explorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..af8b116 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -278,8 +278,8 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                status_code = str(response.getcode())
+                headers = response.headers
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
-- 
2.43.0


From cb9aabcbd2c495bfc0203b9a5309e31e5814d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 24/50] fix: --checksum without --hash

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..ff43b43 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,7 +212,7 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
-        args.hash.append('md5')
+        args.hash = (args.hash or []) + ['md5']
     if include_remote:
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
-- 
2.43.0


From d1bf0ec9007dc972214be450d86a6e75e5f99f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 25/50] fix: read at, completed, from and until times of
 resources

---
 resync/sitemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..a795ab8 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -339,7 +339,8 @@ class Sitemap(object):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
             # simple attributes that map directly to Resource object attributes
-            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type'):
+            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
+                        'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
                     setattr(resource, att, md[att])
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
-- 
2.43.0


From 726c31a9347812422ce3330e29b46fe0febdb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 26/50] fix: reading of indexes for lists other than resource
 lists

---
 resync/list_base_with_index.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b5a778e..e20ceff 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -107,7 +107,9 @@ class ListBaseWithIndex(ListBase):
             pass
         self.logger.info("Read sitemap/sitemapindex from %s" % (uri))
         s = self.new_sitemap()
-        s.parse_xml(fh=fh, resources=self, capability=self.capability_name)
+        parsed = ListBase(md=self.md, ln=self.ln)
+        s.parse_xml(fh=fh, resources=parsed, capability=self.capability_name)
+        self.md = parsed.md
         # what did we read? sitemap or sitemapindex?
         if (s.parsed_index):
             # sitemapindex
@@ -118,22 +120,26 @@ class ListBaseWithIndex(ListBase):
             self.logger.info(
                 "Parsed as sitemapindex, %d sitemaps" %
                 (len(
-                    self.resources)))
+                    parsed)))
             sitemapindex_is_file = self.is_file_uri(uri)
             if (index_only):
                 # don't read the component sitemaps
                 self.sitemapindex = True
+                if (isinstance(self.resources, list)):
+                    self.resources.extend(parsed)
+                else:
+                    for r in parsed:
+                        self.resources.add(r)
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemaps = self.resources
-            self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            self.logger.info("Now reading %d sitemaps" % len(parsed))
+            for sitemap_uri in sorted(parsed.uris()):
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
             # sitemap
+            self.add(parsed)
             self.logger.info("Parsed as sitemap, %d resources" %
                              (len(self.resources)))
 
@@ -179,7 +185,7 @@ class ListBaseWithIndex(ListBase):
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
-            self.resources.add(r)
+            self.add(r)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
-- 
2.43.0


From 737809cfc4a5b29f36777bf5876b2d4a1bf853b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 27/50] fix: dump paths are relative to the common directory of
 all files

---
 resync/dump.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..85a09eb 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -138,10 +138,10 @@ class Dump(object):
                     "No file path defined for resource %s" %
                     resource.uri)
             if (path_prefix is None):
-                path_prefix = os.path.dirname(resource.path)
+                path_prefix = os.path.dirname(os.path.abspath(resource.path))
             else:
-                path_prefix = os.path.commonprefix(
-                    [path_prefix, os.path.dirname(resource.path)])
+                path_prefix = os.path.commonpath(
+                    [path_prefix, os.path.dirname(os.path.abspath(resource.path))])
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
-- 
2.43.0


From 3124ee39d0c0d9ba463ffc481ce724e6061549e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 28/50] fix: resource named manifest.xml must not clash with
 manifest of dump

---
 resync/dump.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/dump.py b/resync/dump.py
index 85a09eb..b7c5329 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -155,6 +155,10 @@ class Dump(object):
                     (resource.path, size, self.max_size))
             total_size += size
         self.path_prefix = path_prefix
+        # The name of the manifest must not be used for a resource
+        for resource in self.resources:
+            if (self.archive_path(resource.path) == 'manifest.xml'):
+                self.path_prefix = os.path.dirname(path_prefix)
         self.total_size = total_size
         self.logger.info(
             "Total size of files to include in dump %d bytes" %
-- 
2.43.0


From a5c3d74d1b2c528647a6b53483015d7b6ec59474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 29/50] fix: separate dump manifest gives paths in the dump,
 not local paths

---
 resync/dump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index b7c5329..ad20104 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -42,8 +42,6 @@ class Dump(object):
         for manifest in self.partition_dumps():
             dumpbase = "%s%05d" % (basename, n)
             dumpfile = "%s.%s" % (dumpbase, self.format)
-            if (write_separate_manifests):
-                manifest.write(basename=dumpbase + '.xml')
             if (self.format == 'zip'):
                 self.write_zip(manifest.resources, dumpfile)
             elif (self.format == 'warc'):
@@ -52,6 +50,9 @@ class Dump(object):
                 raise DumpError(
                     "Unknown dump format requested (%s)" %
                     (self.format))
+            if (write_separate_manifests):
+                # after writing dump so that paths are those in the dump
+                manifest.write(basename=dumpbase + '.xml')
             n += 1
         self.logger.info("Wrote %d dump files" % (n))
         return(n)
-- 
2.43.0


From 46c3992820f6132766b186630d9153210a92c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 30/50] fix: retry downloads that time out while connecting

---
 resync/client.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index edbcf33..e651f77 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -525,7 +525,16 @@ class Client(object):
                             raise IOError("incomplete, %d bytes missing" % (fh_in.length))
                     num_updated += 1
                     break
-                except socket.timeout as e:
+                except (IOError, HTTPException) as e:
+                    # a timeout while connecting is the reason of an URLError
+                    if (not isinstance(e, socket.timeout)
+                            and not isinstance(getattr(e, 'reason', None), socket.timeout)):
+                        msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
+                        if (self.ignore_failures):
+                            self.logger.warning(msg)
+                            return(num_updated)
+                        else:
+                            raise ClientFatalError(msg)
                     if try_i < self.tries:
                         msg = 'Download timed out, retrying...'
                         self.logger.info(msg)
@@ -538,13 +547,6 @@ class Client(object):
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
-                except (IOError, HTTPException) as e:
-                    msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
-                    if (self.ignore_failures):
-                        self.logger.warning(msg)
-                        return(num_updated)
-                    else:
-                        raise ClientFatalError(msg)
             # 2. set timestamp if we have one
             if (resource.timestamp is not None):
                 unixtime = int(resource.timestamp)  # no fractional
-- 
2.43.0


From a058053055373fe1792291c0b0f78f39c75df97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 31/50] fix: do not report changes as applied before
 incremental sync applies them

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index e651f77..76c20e1 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -440,7 +440,7 @@ class Client(object):
         # either there are no changes or if there are only deletions and
         # we don't allow deletion
         in_sync = ((to_update + to_delete + to_create) == 0)
-        self.log_status(in_sync=in_sync, incremental=True, created=to_create,
+        self.log_status(in_sync=in_sync, incremental=True, audit=True, created=to_create,
                         updated=to_update, deleted=to_delete)
         if (in_sync or ((to_update + to_create) == 0 and not allow_deletion)):
             self.logger.debug("Completed incremental")
-- 
2.43.0


From a8db6969fc2bdf9318200b268b74ab7a87cfcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 32/50] fix: incremental sync that applied changes must not
 report NO CHANGES

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 76c20e1..963f1eb 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -470,7 +470,7 @@ class Client(object):
             else:
                 raise ClientError("Unknown change type %s" % (resource.change))
         # 7. Report status and planned actions
-        self.log_status(incremental=True, created=num_created, updated=num_updated,
+        self.log_status(in_sync=False, incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
         if (not self.dryrun and self.last_timestamp > 0):
-- 
2.43.0


From 3d7614d0cc074287b322557730bf6ab728052238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 33/50] fix: no dump message in change list output when no dump
 was requested

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 963f1eb..83a3d44 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -766,7 +766,7 @@ class Client(object):
 
     def write_dump_if_requested(self, resource_list, dump):
         """Write a dump to the file dump."""
-        if (dump is None):
+        if (not dump):
             return
         print("OOPS - FIXME - Wrinting dump to %s not yet implemented" % (dump))
         return(1)
-- 
2.43.0


From 388e2a9d001de4584e3377641ec33a317401394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 34/50] fix: reject datetimes with trailing newline or
 non-ASCII digits

---
 resync/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/w3c_datetime.py b/resync/w3c_datetime.py
index e5544d5..6ea02cf 100644
--- a/resync/w3c_datetime.py
+++ b/resync/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context='datetime'):
     if (s == ''):
         raise ValueError('Attempt to set empty %s' % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?\Z", s, re.ASCII)
     if (m is not None):
         if (m.group(1) is None):
             s += '-01-01'
@@ -86,7 +86,7 @@ def str_to_datetime(s, context='datetime'):
             s += '-01'
         s += 'T00:00:00Z'
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?\Z", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if (m is not None):
@@ -102,7 +102,7 @@ def str_to_datetime(s, context='datetime'):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))$", s)
+                 r"(\d\d):(\d\d))\Z", s, re.ASCII)
     if (m is None):
         raise ValueError("Bad datetime format (%s)" % s)
     str = m.group(1) + 'Z'
-- 
2.43.0


From 59c4212c688705cc243bf6ef7e0c289801fac2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 35/50] fix: malformed digest entry does not hide the other
 digests

---
 resync/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/resource.py b/resync/resource.py
index 85bf637..8077121 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -312,7 +312,7 @@ class Resource(object):
         hash_seen = set()
         errors = []
         for entry in hashes_str.split():
-            (hash_type, value) = entry.split(':', 1)
+            (hash_type, _, value) = entry.partition(':')
             if hash_type in hash_seen:
                 errors.append("duplicate hash type %s" % (hash_type))
             else:
-- 
2.43.0


From 127d3c960a1de2742eab834612508206cfaec065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 36/50] fix: read components of an index in the order they are
 listed

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index e20ceff..399fd0f 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -134,7 +134,7 @@ class ListBaseWithIndex(ListBase):
             # now loop over all entries to read each sitemap and add to
             # resources
             self.logger.info("Now reading %d sitemaps" % len(parsed))
-            for sitemap_uri in sorted(parsed.uris()):
+            for sitemap_uri in parsed.uris():
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
-- 
2.43.0


From d5d329cab5e43455140c1ccf9f9280a6a0177f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 37/50] fix: write list without limit on the number of entries

---
 resync/list_base_with_index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 399fd0f..e18bbfb 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -383,10 +383,12 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        if (len(chunk) < self.max_sitemap_entries):
+        limit = (float('inf') if self.max_sitemap_entries is None
+                 else self.max_sitemap_entries)
+        if (len(chunk) < limit):
             for r in resource_iter:
                 chunk.add(r)
-                if (len(chunk) >= self.max_sitemap_entries):
+                if (len(chunk) >= limit):
                     break
         # Get next to see whether there are more resources
         try:
-- 
2.43.0


From b1399ab28e463720c2bd40f944f2f56706b087da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 38/50] fix: do not derive the root directory as destination
 for a URI without safe characters

---
 resync/mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/mapper.py b/resync/mapper.py
index 7a5bad7..b8d02bb 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -135,6 +135,10 @@ class Mapper():
         path = re.sub(r'__+', '_', path)
         path = re.sub(r'[_\.]+$', '', path)
         path = re.sub(r'^[_\.]+', '', path)
+        if (path == ''):
+            # an empty path would be the root directory
+            raise MapperError(
+                "Can't derive a local path from URI (%s)" % (uri))
         return(path)
 
     def __repr__(self):
-- 
2.43.0


From 291f417525129764adfd826b37e9a56eba9a3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 39/50] fix: a mapping from or to the root directory is unsafe

---
 resync/mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index b8d02bb..1496867 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -218,8 +218,9 @@ class Map:
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
         if (scheme not in ('', 'file')):
             return(False)
-        s = os.path.realpath(url2pathname(path) if scheme == 'file' else self.src_uri)
-        d = os.path.realpath(self.dst_path)
+        # (with trailing slashes stripped the root directory is an empty path)
+        s = os.path.realpath((url2pathname(path) if scheme == 'file' else self.src_uri) or '/')
+        d = os.path.realpath(self.dst_path or '/')
         return(os.path.commonpath([s, d]) in (s, d))
 
     def __repr__(self):
-- 
2.43.0


From d584ed5a1a88e78bf63a81bf0c5c2813c28bc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 40/50] fix: do not list pipes, sockets and devices as
 resources

---
 resync/resource_list_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..7307f14 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -3,6 +3,7 @@
 import os
 import os.path
 import re
+import stat
 import time
 import logging
 from defusedxml.ElementTree import parse
@@ -177,6 +178,9 @@ class ResourceListBuilder():
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
+        if not stat.S_ISREG(file_stat.st_mode):
+            self.logger.warning("Ignoring '%s' (not a regular file)" % (file))
+            return
         timestamp = file_stat.st_mtime  # UTC
         r = Resource(uri=uri, timestamp=timestamp)
         if self.set_path:  # add full local path
-- 
2.43.0


From f4e52ffdc30e8c5170bacb00237ad3fb218642b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 41/50] fix: list files below overlapping paths once instead of
 failing

---
 resync/resource_list_builder.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 7307f14..f44233f 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -121,25 +121,36 @@ class ResourceListBuilder():
         # chunks)
         if (resource_list.md_at is None):
             resource_list.md_at = datetime_to_str()
-        # Run for each map in the mappings
+        # Run for each map in the mappings (these may overlap)
+        scanned = set()
         for path in paths:
             self.logger.info("Scanning disk from %s" % (path))
-            self.from_disk_add_path(path=path, resource_list=resource_list)
+            self.from_disk_add_path(path=path, resource_list=resource_list, scanned=scanned)
         # Set end time
         resource_list.md_completed = datetime_to_str()
         return(resource_list)
 
-    def from_disk_add_path(self, path=None, resource_list=None):
-        """Add to resource_list with resources from disk scan starting at path."""
+    def from_disk_add_path(self, path=None, resource_list=None, scanned=None):
+        """Add to resource_list with resources from disk scan starting at path.
+
+        If the set scanned is specified then files in it are skipped, and the files
+        found are added to it.
+        """
         # sanity
         if (path is None or resource_list is None or self.mapper is None):
             raise ValueError("Must specify path, resource_list and mapper")
+        if (scanned is None):
+            scanned = set()
         # is path a directory or a file? for each file: create Resource object,
         # add, increment counter
         if os.path.isdir(path):
             num_files = 0
             for dirpath, dirs, files in os.walk(path, topdown=True):
                 for file_in_dirpath in files:
+                    filepath = os.path.join(dirpath, file_in_dirpath)
+                    if filepath in scanned:
+                        continue
+                    scanned.add(filepath)
                     num_files += 1
                     if (num_files % self.log_count_increment == 0):
                         self.logger.info(
@@ -154,8 +165,9 @@ class ResourceListBuilder():
                         prune.append(dir)
                 for dir in prune:
                     dirs.remove(dir)
-        else:
+        elif path not in scanned:
             # single file
+            scanned.add(path)
             self.add_file(resource_list=resource_list, file=path)
 
     def add_file(self, resource_list=None, dir=None, file=None):
-- 
2.43.0


From 2216fcb1728ea395fdf4e545f82ab700f77b6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 42/50] fix: write dumps with files whose times ZIP does not
 support

---
 resync/dump.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index ad20104..1076875 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -2,6 +2,7 @@
 
 import logging
 import os.path
+import sys
 from zipfile import ZipFile, ZIP_STORED, ZIP_DEFLATED
 from resync.resource_dump_manifest import ResourceDumpManifest
 
@@ -65,11 +66,14 @@ class Dump(object):
         or total size are performed, this is expected to have been done beforehand.
         """
         compression = (ZIP_DEFLATED if self.compress else ZIP_STORED)
+        # Files may have times outside of the range that ZIP supports
+        kwargs = {'strict_timestamps': False} if sys.version_info >= (3, 8) else {}
         zf = ZipFile(
             dumpfile,
             mode="w",
             compression=compression,
-            allowZip64=True)
+            allowZip64=True,
+            **kwargs)
         # Write resources first
         rdm = ResourceDumpManifest(resources=resources)
         real_path = {}
-- 
2.43.0


From e52e40a789469ca54305596f8c01b38e8d00c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 43/50] fix: do not lose the stored state if interrupted while
 writing it

---
 resync/client_state.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index ce30374..c546da7 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -6,6 +6,7 @@ of the last change seen.
 """
 
 import sys
+import os
 import os.path
 import datetime
 import distutils.dir_util
@@ -44,9 +45,11 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w') as configfile:
+        # Replace the file in one step so that the state is never lost
+        status_file = os.path.realpath(self.status_file)
+        with open(status_file + '.tmp', 'w') as configfile:
             parser.write(configfile)
-            configfile.close()
+        os.replace(status_file + '.tmp', status_file)
 
     def get_state(self, site):
         """Read client status file and return dict."""
-- 
2.43.0


From 72cd569031a556cefc738481eb81ba8f4606831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 44/50] fix: open local files whose name has spaces at its ends
 or begins with //

---
 resync/url_or_file_open.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index e5d10d7..07b9b78 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -32,7 +32,8 @@ def url_or_file_open(uri, method=None, timeout=None):
     no timeout is specified then the global default will be used.
     """
     if (not re.match(r'''\w+:''', uri)):
-        uri = 'file:' + re.sub(r'[%#?]', lambda m: quote(m.group(0)), uri)
+        uri = (('file://' if uri.startswith('/') else 'file:')
+               + re.sub(r'[%#?\s]', lambda m: quote(m.group(0)), uri))
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From 67709f918c324863f71ec8e2e1faacc72a6bdb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 45/50] fix: honor --multifile also when writing change lists

---
 resync/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resync/client.py b/resync/client.py
index 83a3d44..28b2fc0 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -729,6 +729,7 @@ class Client(object):
             cl.add_changed_resources(created, change='created')
         # 4. Write out change list
         cl.mapper = self.mapper
+        cl.allow_multifile = self.allow_multifile
         cl.pretty_xml = self.pretty_xml
         if (self.max_sitemap_entries is not None):
             cl.max_sitemap_entries = self.max_sitemap_entries
-- 
2.43.0


From b006d2f13c22706e684a5f96913a8b11f1dddbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 46/50] fix: explorer follows up and index links, compares
 headers with listed values

---
 resync/explorer.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index af8b116..0c38900 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -13,6 +13,7 @@ except ImportError:  # python2
     input = raw_input
 import os.path
 import datetime
+from email.utils import parsedate_to_datetime
 import distutils.dir_util
 import re
 import time
@@ -81,12 +82,14 @@ class Explorer(Client):
                     starts.append(
                         XResource(
                             well_known, [
+                                'description', 'descriptionindex',
                                 'capabilitylist', 'capabilitylistindex']))
                 else:
                     starts.append(XResource(uri))
                     starts.append(
                         XResource(
                             well_known, [
+                                'description', 'descriptionindex',
                                 'capabilitylist', 'capabilitylistindex']))
                 print("Looking for discovery information based on mappings")
         else:
@@ -157,7 +160,10 @@ class Explorer(Client):
         #
         checks = {}
         r = options[inp]
-        if (r.capability is None):
+        if (inp in ('u', 'i')):
+            # Links to other documents of unknown type
+            caps = None
+        elif (r.capability is None):
             if (capability in ['resourcelist', 'changelist',
                                'resourcedump', 'changedump']):
                 caps = 'resource'
@@ -291,13 +297,26 @@ class Explorer(Client):
                 if header in headers:
                     check_str = ''
                     if (check_headers is not None and header in check_headers):
-                        if (headers[header] == check_headers[header]):
+                        if (self.header_matches(header, headers[header], check_headers[header])):
                             check_str = ' MATCHES EXPECTED VALUE'
                         else:
                             check_str = ' EXPECTED %s' % (
                                 check_headers[header])
                     print("  %s: %s%s" % (header, headers[header], check_str))
 
+    def header_matches(self, header, value, expected):
+        """True if value of header agrees with the value expected.
+
+        Values of HTTP headers are strings and the last-modified time is
+        not in the W3C datetime format of the expected value.
+        """
+        if (header == 'last-modified' and str(value) != str(expected)):
+            try:
+                return(parsedate_to_datetime(value).timestamp() == int(str_to_datetime(expected)))
+            except (TypeError, ValueError):
+                return(False)
+        return(str(value) == str(expected))
+
     def head_on_file(self, file):
         """Get fake status code and headers from local file."""
         status_code = '404'
-- 
2.43.0


From 578d472c3c6257238de5baa4ef6c412d497a73fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 47/50] fix: check authority of component sitemaps given by
 URL, not of local files

---
 resync/list_base_with_index.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index e18bbfb..dc4f2c0 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -157,14 +157,14 @@ class ListBaseWithIndex(ListBase):
                 self.logger.info(
                     "Mapped %s to local file %s" %
                     (remote_uri, sitemap_uri))
-            else:
-                # The individual sitemaps should be at a URL (scheme/server/path)
-                # that the sitemapindex URL can speak authoritatively about
-                if (self.check_url_authority
-                        and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
-                    raise ListBaseIndexError(
-                        "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
-                        (sitemapindex_uri, sitemap_uri))
+        else:
+            # The individual sitemaps should be at a URL (scheme/server/path)
+            # that the sitemapindex URL can speak authoritatively about
+            if (self.check_url_authority
+                    and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
+                raise ListBaseIndexError(
+                    "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
+                    (sitemapindex_uri, sitemap_uri))
         try:
             fh = url_or_file_open(sitemap_uri)
             self.num_files += 1
-- 
2.43.0


From de64d1515a6705dd23c9c06781c2fbd3da0ffde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 48/50] fix: explorer knows descriptionindex documents

---
 resync/explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 0c38900..702a106 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -210,7 +210,7 @@ class Explorer(Client):
             (capability, num_entries))
         if (expected is not None and capability not in expected):
             print("WARNING - expected a %s document" % (','.join(expected)))
-        if (capability not in ['description', 'descriptionoindex', 'capabilitylist',
+        if (capability not in ['description', 'descriptionindex', 'capabilitylist',
                                'resourcelist', 'resourcelistindex', 'changelist', 'changelistindex',
                                'resourcedump', 'resourcedumpindex', 'changedump', 'changedumpindex',
                                'resourcelist-archive', 'resourcedump-archive',
-- 
2.43.0


From ebb4b95446dbb4f66948de097f076e2d5e25d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 49/50] fix: record in generated change lists when changes were
 found

---
 resync/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 28b2fc0..df49450 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -712,6 +712,8 @@ class Client(object):
         """
         cl = ChangeList(ln=links)
         if (not empty):
+            # Changes are found now or later
+            now = time.time()
             # 1. Get and parse reference sitemap
             old_rl = self.read_reference_resource_list(ref_sitemap)
             # 2. Depending on whether a newref_sitemap was specified, either read that
@@ -727,7 +729,12 @@ class Client(object):
             cl.add_changed_resources(updated, change='updated')
             cl.add_changed_resources(deleted, change='deleted')
             cl.add_changed_resources(created, change='created')
-        # 4. Write out change list
+            # 4. Record the time of the changes in lists with times. The lastmod does
+            # not tell when a resource was deleted or an older file moved into place
+            for resource in cl:
+                if (resource.timestamp is not None and resource.ts_datetime is None):
+                    resource.ts_datetime = max(now, resource.timestamp)
+        # 5. Write out change list
         cl.mapper = self.mapper
         cl.allow_multifile = self.allow_multifile
         cl.pretty_xml = self.pretty_xml
-- 
2.43.0


From 63f35b9fa15a7d17fdd362a778b2d10765c703ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:01 +0000
Subject: [PATCH 50/50] fix: treat a directory that cannot be created like any
 failed download

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index df49450..99ff9e6 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -512,11 +512,11 @@ class Client(object):
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
-            if (path != ''):
-                os.makedirs(path, exist_ok=True)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
+                    if (path != ''):
+                        os.makedirs(path, exist_ok=True)
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
-- 
2.43.0

