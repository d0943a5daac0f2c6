From ddd41fde738c6af0559009d9327c62995515d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 01/37] fix: dry run creates no directories and records no
 state

---
 resync/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..80214ae 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -316,7 +316,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -469,7 +469,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -495,13 +495,13 @@ class Client(object):
         Returns the number of resources updated/created (0 or 1)
         """
         path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
+            distutils.dir_util.mkpath(path)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From 811ca44b1a7ed4518905b43aa467135d2f80e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 02/37] fix: check authority of an explicit change list and
 honour strict authority for the source list

---
 resync/client.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 80214ae..576aea9 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -398,13 +398,13 @@ class Client(object):
         if (not self.noauth):
             uauth_cs = UrlAuthority(change_list, self.strictauth)
             if (not change_list_uri):
-                uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+                uauth_sm = UrlAuthority(self.sitemap, self.strictauth)
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From aa53b831d46112c7f2f3e10c87e80f7d11d0be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 03/37] fix: take mapping prefixes literally, not as regular
 expressions

---
 resync/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..63a5e56 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -178,7 +178,7 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
+        m = re.fullmatch(re.escape(self.dst_path) + "(/.*)?", dst_file, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
@@ -195,7 +195,7 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
+        m = re.fullmatch(re.escape(self.src_uri) + "(/.*)?", src_uri, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
-- 
2.43.0


From 0b1794b546fbe450f0578d8e1d7314958312c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 04/37] fix: do not map source URIs with .. segments out of the
 destination path

---
 resync/mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/mapper.py b/resync/mapper.py
index 63a5e56..df40ee3 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -201,6 +201,9 @@ class Map:
         rel_path = m.group(1)
         if rel_path is None:
             rel_path = '/'
+        if '..' in rel_path.split('/'):
+            # would lead to a path outside self.dst_path
+            return(None)
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From 77343acafae001c67795ef45198deefb94bfde70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 05/37] fix: strip all trailing slashes from mapping prefixes

---
 resync/mapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index df40ee3..944d5ed 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -162,10 +162,7 @@ class Map:
 
     def strip_trailing_slashes(self, path):
         """Return input path minus any trailing slashes."""
-        m = re.match(r"(.*)/+$", path)
-        if (m is None):
-            return(path)
-        return(m.group(1))
+        return(path.rstrip('/'))
 
     def dst_to_src(self, dst_file):
         """Return the src URI from the dst filepath.
-- 
2.43.0


From 6ce99c5ad342a384461f086088bf3adf4953a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 06/37] fix: compare local mapping paths by path segments and
 recognize file: sources as local

---
 resync/mapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 944d5ed..8bba49c 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -210,11 +210,11 @@ class Map:
         destination are the same, or if one is a component of the other path.
         """
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
-        if (scheme != ''):
+        if (scheme not in ('', 'file')):
             return(False)
-        s = os.path.normpath(self.src_uri)
-        d = os.path.normpath(self.dst_path)
-        lcp = os.path.commonprefix([s, d])
+        s = os.path.abspath(path if scheme == 'file' else self.src_uri)
+        d = os.path.abspath(self.dst_path)
+        lcp = os.path.commonpath([s, d])
         return(s == lcp or d == lcp)
 
     def __repr__(self):
-- 
2.43.0


From a25aeb2e35cd35ec52ed27a1bcb49ad79b750612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 07/37] fix: strict authority compares paths at segment
 boundaries

---
 resync/url_authority.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..38a423e 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -68,6 +68,6 @@ class UrlAuthority(object):
             # b.example.org
         path = os.path.dirname(s.path)
         if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
+                and not path.startswith(self.master_path.rstrip('/') + '/')):
             return(False)
         return(True)
-- 
2.43.0


From 68a7a58f8f97d34ab2c3f7065caf41c9113789d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 08/37] fix: dump member paths are relative to the common
 directory of all files

---
 resync/dump.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..85a09eb 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -138,10 +138,10 @@ class Dump(object):
                     "No file path defined for resource %s" %
                     resource.uri)
             if (path_prefix is None):
-                path_prefix = os.path.dirname(resource.path)
+                path_prefix = os.path.dirname(os.path.abspath(resource.path))
             else:
-                path_prefix = os.path.commonprefix(
-                    [path_prefix, os.path.dirname(resource.path)])
+                path_prefix = os.path.commonpath(
+                    [path_prefix, os.path.dirname(os.path.abspath(resource.path))])
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
-- 
2.43.0


From 4a604d8099af5b5a654534cdb827eda37e911eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 09/37] fix: log message after writing a WARC dump

---
 resync/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index 85a09eb..b911a4c 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -112,7 +112,7 @@ class Dump(object):
             wf.write_record(WARCRecord(header=wh, payload=resource.path))
         wf.close()
         warcsize = os.path.getsize(dumpfile)
-        self.logging.info(
+        self.logger.info(
             "Wrote WARC file dump %s with size %d bytes" %
             (dumpfile, warcsize))
 
-- 
2.43.0


From d80fb65de2e577d032d5057aa6d532adbf93c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 10/37] fix: separate dump manifest gives paths in the archive,
 not local paths

---
 resync/dump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index b911a4c..17258b5 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -42,8 +42,6 @@ class Dump(object):
         for manifest in self.partition_dumps():
             dumpbase = "%s%05d" % (basename, n)
             dumpfile = "%s.%s" % (dumpbase, self.format)
-            if (write_separate_manifests):
-                manifest.write(basename=dumpbase + '.xml')
             if (self.format == 'zip'):
                 self.write_zip(manifest.resources, dumpfile)
             elif (self.format == 'warc'):
@@ -52,6 +50,9 @@ class Dump(object):
                 raise DumpError(
                     "Unknown dump format requested (%s)" %
                     (self.format))
+            if (write_separate_manifests):
+                # after write_zip() has set the paths used in the archive
+                manifest.write(basename=dumpbase + '.xml')
             n += 1
         self.logger.info("Wrote %d dump files" % (n))
         return(n)
-- 
2.43.0


From 34d84defa0a743ce9497b33d0457055d077f6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 11/37] fix: --checksum without --hash

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..ff43b43 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,7 +212,7 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
-        args.hash.append('md5')
+        args.hash = (args.hash or []) + ['md5']
     if include_remote:
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
-- 
2.43.0


From 3c2a3ca1cd569edf5567be92796eb499240349ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 12/37] fix: prune the hashes missing from the source, not
 those present

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 576aea9..bd937b9 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -791,8 +791,8 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in list(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
         self.logger.info("Not calculating %s hash(es) on destination as not present "
-- 
2.43.0


From fb72512f7177f4f6554ceb189b99e8609892fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 13/37] fix: make hashes() available for change lists, used by
 incremental sync

---
 resync/list_base_with_index.py | 13 +++++++++++++
 resync/resource_list.py        | 13 -------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..66110ff 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -361,6 +361,19 @@ class ListBaseWithIndex(ListBase):
 
     # Utility
 
+    def hashes(self):
+        """Return set of hashes uses in this resource_list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
+
     def get_resources_chunk(self, resource_iter, first=None):
         """Return next chunk of resources from resource_iter, and next item.
 
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..3ecb0ac 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -211,16 +211,3 @@ class ResourceList(ListBaseWithIndex):
             src_cur = next(src_iter, None)
         # have now gone through both lists
         return(same, updated, deleted, created)
-
-    def hashes(self):
-        """Return set of hashes uses in this resource_list."""
-        hashes = set()
-        if (self.resources is not None):
-            for resource in self:
-                if (resource.md5 is not None):
-                    hashes.add('md5')
-                if (resource.sha1 is not None):
-                    hashes.add('sha-1')
-                if (resource.sha256 is not None):
-                    hashes.add('sha-256')
-        return(hashes)
-- 
2.43.0


From 1cd1d08b7860adce0e1022ec21c825edb5fb7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 14/37] fix: local times of deleted files do not advance the
 recorded source timestamp

---
 resync/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index bd937b9..ac088c9 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -310,11 +310,15 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             self.logger.info("updated: %s -> %s" % (uri, filename))
             num_updated += self.update_resource(resource, filename, 'updated')
+        # Timestamps of deleted resources are from the local disk scan, so they
+        # must not contribute to the timestamp recorded for the source
+        last_timestamp = self.last_timestamp
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
+        self.last_timestamp = last_timestamp
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From 8e237edc98550bb3d8653170967a818ab3de7bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 15/37] fix: incremental sync reports only updates actually
 made

---
 resync/client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index ac088c9..598ed4c 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -458,12 +458,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
-- 
2.43.0


From e54b9d321ccdbc87cc0e5ad7c4b69219b26b2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 16/37] fix: do not strip leading characters of source
 locations

---
 resync/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 598ed4c..1220e20 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -181,7 +181,6 @@ class Client(object):
         errors = []
         for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
                     urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
@@ -191,7 +190,6 @@ class Client(object):
         for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
                     urljoin(self.sitemap, 'sitemap.xml'),
                     urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From 9cafb44e1032c77aabe2683e4debb34d2715014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 17/37] fix: format error message for multiple rs:md elements

---
 resync/sitemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..f5801dd 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -334,7 +334,7 @@ class Sitemap(object):
         md_elements = etree.findall('{' + RS_NS + "}md")
         if (len(md_elements) > 1):
             raise SitemapParseError(
-                "Found multiple (%d) <rs:md> elements for %s", (len(md_elements), loc))
+                "Found multiple (%d) <rs:md> elements for %s" % (len(md_elements), loc))
         elif (len(md_elements) == 1):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
-- 
2.43.0


From 91f5e0c3c30d7fa6a71e61c35154c18cb333fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 18/37] fix: read at, completed, from and until of entries,
 report bad datetimes as parse errors

---
 resync/sitemap.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index f5801dd..3ca22cd 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -329,7 +329,10 @@ class Sitemap(object):
             raise SitemapParseError(
                 "Multiple <lastmod> elements while parsing <url> in sitemap")
         elif (len(lastmod_elements) == 1):
-            resource.lastmod = lastmod_elements[0].text
+            try:
+                resource.lastmod = lastmod_elements[0].text
+            except ValueError as e:
+                raise SitemapParseError("Bad <lastmod> for %s (%s)" % (loc, str(e)))
         # proceed to look for other resource attributes in an rs:md element
         md_elements = etree.findall('{' + RS_NS + "}md")
         if (len(md_elements) > 1):
@@ -339,9 +342,14 @@ class Sitemap(object):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
             # simple attributes that map directly to Resource object attributes
-            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type'):
+            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
+                        'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
-                    setattr(resource, att, md[att])
+                    try:
+                        setattr(resource, att, md[att])
+                    except ValueError as e:
+                        raise SitemapParseError("Bad %s in <rs:md> for %s (%s)" %
+                                                (self._xml_att_name(att), loc, str(e)))
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
             # digest types. Parse and warn of errors ignored.
             if ('hash' in md):
-- 
2.43.0


From 1ca66857c9a4f7cc928610892d7e50d347d1428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 19/37] fix: parts of a split list have at most
 max_sitemap_entries entries, None means no limit

---
 resync/list_base_with_index.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 66110ff..5cd8700 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -390,15 +390,14 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
+        nxt = None
         for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
+            if (self.max_sitemap_entries is not None
+                    and len(chunk) >= max(self.max_sitemap_entries, 1)):
+                # Have more resources for another chunk
+                nxt = r
                 break
-        # Get next to see whether there are more resources
-        try:
-            nxt = next(resource_iter)
-        except StopIteration:
-            nxt = None
+            chunk.add(r)
         return(chunk, nxt)
 
     def part_name(self, basename='/tmp/sitemap.xml', part_number=0):
-- 
2.43.0


From 8de28e1af59bc168aa6cc2279105a9150dbbccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 20/37] fix: no component sitemap starts after the last entry

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 5cd8700..fab4959 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -259,7 +259,7 @@ class ListBaseWithIndex(ListBase):
                 (len(self), str(
                     self.max_sitemap_entries)))
         start = part_number * self.max_sitemap_entries
-        if (start > len(self)):
+        if (start >= len(self)):
             raise ListBaseIndexError(
                 "Request for component sitemap with part_number too high, would start at entry %d yet the list has only %d entries" %
                 (start, len(self)))
-- 
2.43.0


From 51e4723034f4d2ecca2a1026b068a7b664f6c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 21/37] fix: indexes and parts returned as strings have the
 metadata, links and format of the list

---
 resync/list_base_with_index.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index fab4959..972270d 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -234,8 +234,11 @@ class ListBaseWithIndex(ListBase):
                 "Request for sitemapindex for list with only %d entries when max_sitemap_entries is set to %s" %
                 (len(self), str(
                     self.max_sitemap_entries)))
-        index = ListBase()
+        index = ListBase(md=self.md.copy(), ln=list(self.ln),
+                         spec_version=self.spec_version,
+                         add_lastmod=self.add_lastmod)
         index.sitemapindex = True
+        index.pretty_xml = self.pretty_xml
         index.capability_name = self.capability_name
         index.default_capability()
         for n in range(num_parts):
@@ -266,7 +269,8 @@ class ListBaseWithIndex(ListBase):
         stop = start + self.max_sitemap_entries
         if (stop > len(self)):
             stop = len(self)
-        part = ListBase(itertools.islice(self.resources, start, stop))
+        part = ListBase(itertools.islice(self.resources, start, stop),
+                        md=self.md.copy(), ln=list(self.ln))
         part.capability_name = self.capability_name
         part.default_capability()
         part.index = basename
-- 
2.43.0


From 553634e1b18d3dd64d7baeece889997d67705ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 22/37] fix: read indexes of lists whichever class stores the
 resources

---
 resync/list_base_with_index.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 972270d..b98ee82 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -126,10 +126,10 @@ class ListBaseWithIndex(ListBase):
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemaps = self.resources
+            sitemap_uris = self.uris()
             self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            self.logger.info("Now reading %d sitemaps" % len(sitemap_uris))
+            for sitemap_uri in sorted(sitemap_uris):
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
@@ -179,7 +179,7 @@ class ListBaseWithIndex(ListBase):
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
-            self.resources.add(r)
+            self.add(r)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
-- 
2.43.0


From 31622ee4b46ea087ccff2b357c617da68448940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 23/37] fix: optional authority check applies to component
 sitemaps of remote indexes

---
 resync/list_base_with_index.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b98ee82..408c0a9 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -151,14 +151,14 @@ class ListBaseWithIndex(ListBase):
                 self.logger.info(
                     "Mapped %s to local file %s" %
                     (remote_uri, sitemap_uri))
-            else:
-                # The individual sitemaps should be at a URL (scheme/server/path)
-                # that the sitemapindex URL can speak authoritatively about
-                if (self.check_url_authority
-                        and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
-                    raise ListBaseIndexError(
-                        "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
-                        (sitemapindex_uri, sitemap_uri))
+        else:
+            # The individual sitemaps should be at a URL (scheme/server/path)
+            # that the sitemapindex URL can speak authoritatively about
+            if (self.check_url_authority
+                    and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
+                raise ListBaseIndexError(
+                    "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
+                    (sitemapindex_uri, sitemap_uri))
         try:
             fh = url_or_file_open(sitemap_uri)
             self.num_files += 1
-- 
2.43.0


From 92a71bd593083417ebcbf4fe9dae6e3a875541dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 24/37] fix: iterations over the same list do not disturb each
 other

---
 resync/capability_list.py | 15 ++++-----------
 resync/resource_list.py   |  9 +--------
 resync/resource_set.py    | 10 +---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..25f857c 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        iter_list = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    iter_list.append(uri)
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
         for cap in uris:
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                iter_list.append(uri)
+        return(iter([self[uri] for uri in iter_list]))
 
 
 class CapabilityList(ListBase):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 3ecb0ac..3a57006 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From 1ca6f3fd153300acbb788366292b1433b37183fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 25/37] fix: pass on all constructor options of dump and
 archive document classes

---
 resync/archives.py               | 6 ++++--
 resync/change_dump.py            | 3 ++-
 resync/change_dump_manifest.py   | 1 +
 resync/resource_dump.py          | 3 ++-
 resync/resource_dump_manifest.py | 3 ++-
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/resync/archives.py b/resync/archives.py
index 2c88446..e492785 100644
--- a/resync/archives.py
+++ b/resync/archives.py
@@ -28,7 +28,8 @@ class ResourceListArchive(ListBaseWithIndex):
         super(ResourceListArchive, self).__init__(
             resources=resources, md=md, ln=ln, uri=uri,
             capability_name='resourcelist-archive',
-            spec_version=spec_version, add_lastmod=add_lastmod)
+            spec_version=spec_version, add_lastmod=add_lastmod,
+            resources_class=resources_class)
 
 
 class ChangeListArchive(ListBaseWithIndex):
@@ -41,7 +42,8 @@ class ChangeListArchive(ListBaseWithIndex):
         super(ChangeListArchive, self).__init__(
             resources=resources, md=md, ln=ln, uri=uri,
             capability_name='changelist-archive',
-            spec_version=spec_version, add_lastmod=add_lastmod)
+            spec_version=spec_version, add_lastmod=add_lastmod,
+            resources_class=resources_class)
 
 
 class ResourceDumpArchive(ListBaseWithIndex):
diff --git a/resync/change_dump.py b/resync/change_dump.py
index a97a7ac..3f4d132 100644
--- a/resync/change_dump.py
+++ b/resync/change_dump.py
@@ -30,6 +30,7 @@ class ChangeDump(ResourceList):
         subclassing ResourceList.
         """
         super(ChangeDump, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'changedump'
diff --git a/resync/change_dump_manifest.py b/resync/change_dump_manifest.py
index cb2fa22..5b10fb8 100644
--- a/resync/change_dump_manifest.py
+++ b/resync/change_dump_manifest.py
@@ -33,4 +33,5 @@ class ChangeDumpManifest(ChangeList):
         super(ChangeDumpManifest, self).__init__(
             resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
+        self.allow_multifile = (True if (allow_multifile is None) else allow_multifile)
         self.capability_name = 'changedump-manifest'
diff --git a/resync/resource_dump.py b/resync/resource_dump.py
index a8541b1..6ade281 100644
--- a/resync/resource_dump.py
+++ b/resync/resource_dump.py
@@ -28,7 +28,8 @@ class ResourceDump(ResourceList):
                  spec_version='1.1', add_lastmod=False):
         """Initialize ResourceDump."""
         super(ResourceDump, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'resourcedump'
 
diff --git a/resync/resource_dump_manifest.py b/resync/resource_dump_manifest.py
index 71790d7..2e93b75 100644
--- a/resync/resource_dump_manifest.py
+++ b/resync/resource_dump_manifest.py
@@ -25,6 +25,7 @@ class ResourceDumpManifest(ResourceList):
                  spec_version='1.1', add_lastmod=False):
         """Initialize ResourceDumpManifest."""
         super(ResourceDumpManifest, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'resourcedump-manifest'
-- 
2.43.0


From 1fc66ad8b5cf90a445f278e096b5235a23ffff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 26/37] fix: replace the client state file atomically

---
 resync/client_state.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index ce30374..04761af 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -6,6 +6,7 @@ of the last change seen.
 """
 
 import sys
+import os
 import os.path
 import datetime
 import distutils.dir_util
@@ -44,9 +45,12 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w') as configfile:
+        # Write new file and then move into place so that the file is
+        # never incomplete
+        new_status_file = self.status_file + '.new'
+        with open(new_status_file, 'w') as configfile:
             parser.write(configfile)
-            configfile.close()
+        os.replace(new_status_file, self.status_file)
 
     def get_state(self, site):
         """Read client status file and return dict."""
-- 
2.43.0


From bdd6a10bbced2fe19ac5cdfd6691faad4cbd5693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 27/37] fix: documents written by the client follow its
 specification version

---
 resync/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 1220e20..fd59280 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -231,6 +231,7 @@ class Client(object):
         rl.allow_multifile = self.allow_multifile
         rl.pretty_xml = self.pretty_xml
         rl.mapper = self.mapper
+        rl.spec_version = self.spec_version
         if (self.max_sitemap_entries is not None):
             rl.max_sitemap_entries = self.max_sitemap_entries
         return(rl)
@@ -693,7 +694,7 @@ class Client(object):
         disk. The files on disk are scanned based either on the paths setting or
         else on the mappings.
         """
-        cl = ChangeList(ln=links)
+        cl = ChangeList(ln=links, spec_version=self.spec_version)
         if (not empty):
             # 1. Get and parse reference sitemap
             old_rl = self.read_reference_resource_list(ref_sitemap)
@@ -724,7 +725,7 @@ class Client(object):
     def write_capability_list(self, capabilities=None,
                               outfile=None, links=None):
         """Write a Capability List to outfile or STDOUT."""
-        capl = CapabilityList(ln=links)
+        capl = CapabilityList(ln=links, spec_version=self.spec_version)
         capl.pretty_xml = self.pretty_xml
         if (capabilities is not None):
             for name in capabilities.keys():
@@ -737,7 +738,7 @@ class Client(object):
     def write_source_description(
             self, capability_lists=None, outfile=None, links=None):
         """Write a ResourceSync Description document to outfile or STDOUT."""
-        rsd = SourceDescription(ln=links)
+        rsd = SourceDescription(ln=links, spec_version=self.spec_version)
         rsd.pretty_xml = self.pretty_xml
         if (capability_lists is not None):
             for uri in capability_lists:
-- 
2.43.0


From db5ca39d845a3aee86f7e8fd50cb52c48ea6dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 28/37] fix: change lists written by the client honour the
 multifile setting

---
 resync/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resync/client.py b/resync/client.py
index fd59280..48737a7 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -713,6 +713,7 @@ class Client(object):
             cl.add_changed_resources(created, change='created')
         # 4. Write out change list
         cl.mapper = self.mapper
+        cl.allow_multifile = self.allow_multifile
         cl.pretty_xml = self.pretty_xml
         if (self.max_sitemap_entries is not None):
             cl.max_sitemap_entries = self.max_sitemap_entries
-- 
2.43.0


From 0afe951a510401d36a5e74e66b49d52c70f571cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 29/37] fix: do not print a dump message when no dump was
 requested

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 48737a7..21b48b0 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -751,7 +751,7 @@ class Client(object):
 
     def write_dump_if_requested(self, resource_list, dump):
         """Write a dump to the file dump."""
-        if (dump is None):
+        if (not dump):
             return
         print("OOPS - FIXME - Wrinting dump to %s not yet implemented" % (dump))
         return(1)
-- 
2.43.0


From 5b45b31b26b16d21570e6dbf000e51ef613873e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 30/37] fix: HEAD requests of the explorer

---
 resync/explorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..89d939f 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -278,8 +278,8 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                status_code = str(response.status)
+                headers = response.headers
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
-- 
2.43.0


From a09836c2847f2b6a0e9603e6df91becbe6e0164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 31/37] fix: name of the description index document type

---
 resync/explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 89d939f..8d895e7 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -204,7 +204,7 @@ class Explorer(Client):
             (capability, num_entries))
         if (expected is not None and capability not in expected):
             print("WARNING - expected a %s document" % (','.join(expected)))
-        if (capability not in ['description', 'descriptionoindex', 'capabilitylist',
+        if (capability not in ['description', 'descriptionindex', 'capabilitylist',
                                'resourcelist', 'resourcelistindex', 'changelist', 'changelistindex',
                                'resourcedump', 'resourcedumpindex', 'changedump', 'changedumpindex',
                                'resourcelist-archive', 'resourcedump-archive',
-- 
2.43.0


From f47e55ae3bfa4e95db66815014380ec549845141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 32/37] fix: skip files that vanish while their hashes are
 computed

---
 resync/resource_list_builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..2959433 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -174,15 +174,15 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            timestamp = file_stat.st_mtime  # UTC
+            r = Resource(uri=uri, timestamp=timestamp)
+            if self.set_hashes:  # add any hashes requested
+                Hashes(self.set_hashes, file).set(r)
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
-        timestamp = file_stat.st_mtime  # UTC
-        r = Resource(uri=uri, timestamp=timestamp)
         if self.set_path:  # add full local path
             r.path = file
-        if self.set_hashes:  # add any hashes requested
-            Hashes(self.set_hashes, file).set(r)
         if self.set_length:  # add length
             r.length = file_stat.st_size
         resource_list.add(r)
-- 
2.43.0


From f82f76960b7693c6094096401e82debe565ee7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 33/37] fix: a failed download leaves an existing local copy
 intact

---
 resync/client.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 21b48b0..cd5eea3 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -507,8 +507,7 @@ class Client(object):
             for try_i in range(1, self.tries + 1):
                 try:
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
-                        with open(filename, 'wb') as fh_out:
-                            shutil.copyfileobj(fh_in, fh_out)
+                        self.write_file(filename, fh_in)
                     num_updated += 1
                     break
                 except socket.timeout as e:
@@ -548,6 +547,22 @@ class Client(object):
                 self.check_hashes(filename, resource)
         return(num_updated)
 
+    def write_file(self, filename, fh_in):
+        """Write content of fh_in to filename.
+
+        Any existing file is replaced only when all content has been read, so it
+        is left intact in case of failure.
+        """
+        new_filename = filename + '.resync-new'
+        try:
+            with open(new_filename, 'wb') as fh_out:
+                shutil.copyfileobj(fh_in, fh_out)
+            os.replace(new_filename, filename)
+        except Exception:
+            if (os.path.exists(new_filename)):
+                os.unlink(new_filename)
+            raise
+
     def check_hashes(self, filename, resource):
         """Check all hashes present in self.hashes _and_ resource object.
 
-- 
2.43.0


From d73e83445b684b218493e38e2ee37df37bbe54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 34/37] fix: treat HTTP protocol errors during a download as a
 failed download

---
 resync/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index cd5eea3..6b22531 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -8,6 +8,7 @@ except ImportError:  # pragma: no cover  python2
 import os.path
 import datetime
 import distutils.dir_util
+import http.client
 import re
 import time
 import logging
@@ -523,7 +524,7 @@ class Client(object):
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
-                except IOError as e:
+                except (IOError, http.client.HTTPException) as e:
                     msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
                     if (self.ignore_failures):
                         self.logger.warning(msg)
-- 
2.43.0


From 8033b92986fea68eae450a626aeeb7ff7b069975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 35/37] fix: report failure to create the directory of a local
 copy as a failed download

---
 resync/client.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 6b22531..22e9bfc 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -8,6 +8,7 @@ except ImportError:  # pragma: no cover  python2
 import os.path
 import datetime
 import distutils.dir_util
+import distutils.errors
 import http.client
 import re
 import time
@@ -503,8 +504,16 @@ class Client(object):
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
-            distutils.dir_util.mkpath(path)
             # 1. GET
+            try:
+                distutils.dir_util.mkpath(path)
+            except (IOError, distutils.errors.DistutilsFileError) as e:
+                msg = "Failed to create directory for %s -- %s" % (resource.uri, str(e))
+                if (self.ignore_failures):
+                    self.logger.warning(msg)
+                    return(num_updated)
+                else:
+                    raise ClientFatalError(msg)
             for try_i in range(1, self.tries + 1):
                 try:
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
-- 
2.43.0


From b1e5a4f5e420fc3eec4abd77c32dbe99e334f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 36/37] fix: https: URIs of sitemap indexes and components are
 not local files

The pattern for a scheme accepted three or four letters only, so https:
URIs were taken as local files: components listed with https: URIs in a
local index were fetched instead of being mapped, and those of an index
read over https were mapped to local files and not checked for authority.
---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 408c0a9..a7b2d87 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -429,7 +429,7 @@ class ListBaseWithIndex(ListBase):
         Test is to see whether have either an explicit file: URI or whether
         there is no scheme name.
         """
-        return(re.match(r'file:', uri) or not re.match(r'\w{3,4}:', uri))
+        return(re.match(r'file:', uri) or not re.match(r'\w{3,}:', uri))
 
 
 class ListBaseIndexError(Exception):
-- 
2.43.0


From 05742da665a444b79c9d5de4c70de9566733d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 37/37] fix: refuse to dump a file in the place of the manifest

A file manifest.xml in the common directory of all files would become a
second member manifest.xml of the archive, which readers take for the
manifest.
---
 resync/dump.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resync/dump.py b/resync/dump.py
index 17258b5..37e9379 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -156,6 +156,11 @@ class Dump(object):
                     (resource.path, size, self.max_size))
             total_size += size
         self.path_prefix = path_prefix
+        for resource in self.resources:
+            if (self.archive_path(resource.path) == 'manifest.xml'):
+                raise DumpError(
+                    "File %s of resource %s would replace the manifest of the dump" %
+                    (resource.path, resource.uri))
         self.total_size = total_size
         self.logger.info(
             "Total size of files to include in dump %d bytes" %
-- 
2.43.0

