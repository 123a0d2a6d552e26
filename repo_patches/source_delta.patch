From 401e57940a5d0d3035e437e665343ccf29414094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:48 +0000
Subject: [PATCH 01/58] fix: splitting a bag that has no bag-info.txt file

bag-info.txt is optional in BagIt; the split failed while writing the
head bag's aggregation-info.txt.
---
 multibag/split.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index e8ac308..60694d2 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -389,11 +389,12 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
-                with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
-                             'w', encoding=DEF_ENC) as fd:
-                    with self.progenitor.open_text_file("bag-info.txt") as ifd:
-                        for f in ifd:
-                            fd.write(f)
+                if self.progenitor.isfile("bag-info.txt"):
+                    with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                            for f in ifd:
+                                fd.write(f)
                 
 
             yield bagdir
-- 
2.43.0


From 6f51d8e474181dfd7771168bebca092e0e6a463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:07 +0000
Subject: [PATCH 02/58] fix: SplitPlan() given the path to a serialized bag

The documented str path to a serialized source bag was opened as a directory.
---
 multibag/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 60694d2..4390c66 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 from functools import cmp_to_key
 
 from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
-from .access.bagit import Bag, ReadOnlyBag
+from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
 from bagit import _parse_tags
@@ -65,7 +65,7 @@ class SplitPlan(object):
         """
         if isinstance(source, (str, _unicode)):
             if os.path.isfile(source):
-                source = ReadOnlyBag(source)
+                source = open_bag(source)
             else:
                 # so that we can replicate with hard links when possible
                 source = Bag(source)
-- 
2.43.0


From 0dab18ce6eaae58ff9f1e5c51dd33727b82b1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 03/58] fix: files named like BagIt tag files were left out of
 splits

nonstandard() took any file called bagit.txt, manifest-md5.txt, etc. in any
directory (e.g. data/bagit.txt) for one of the BagIt-specific files, which only
exist in a bag's root directory; and its patterns (and the splitter's) let any
character stand for the dot.
---
 multibag/access/extended.py | 9 +++++----
 multibag/split.py           | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9f27b7..109f58b 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -159,16 +159,17 @@ class ExtendedReadMixin(object):
         in output multibags).
         """
         special = [re.compile(r) for r in
-                       r"^bagit.txt$ ^bag-info.txt$ ^fetch.txt$".split() +
-                       r"^(tag)?manifest-(\w+).txt$".split()]
+                       r"^bagit\.txt$ ^bag-info\.txt$ ^fetch\.txt$".split() +
+                       r"^(tag)?manifest-(\w+)\.txt$".split()]
 
         for dir, subdirs, files in self.walk():
             if len(subdirs) == 0 and len(files) == 0:
                 # spit out a directory if it is empty
                 yield dir
             for file in files:
-                # don't spit out a file is it's one of the special ones
-                if not any([bool(spf.match(file)) for spf in special]):
+                # don't spit out a file is it's one of the special ones (which
+                # are found only in the bag's root directory)
+                if dir or not any([bool(spf.match(file)) for spf in special]):
                     yield os.path.join(dir, file)
 
     def _load_bag_info(self):
diff --git a/multibag/split.py b/multibag/split.py
index 4390c66..586976c 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -603,8 +603,8 @@ class WellPackedSplitter(Splitter):
         }
         
     _special = [re.compile(r) for r in
-                       r"^/bagit.txt$ ^/bag-info.txt$ ^/fetch.txt$".split() +
-                       r"^/(tag)?manifest-(\w+).txt$".split()]
+                       r"^/bagit\.txt$ ^/bag-info\.txt$ ^/fetch\.txt$".split() +
+                       r"^/(tag)?manifest-(\w+)\.txt$".split()]
     def _is_special(self, filename):
         for r in self._special:
             if r.match(filename):
-- 
2.43.0


From bc92471a4775a9cb7310e04ea51131bfb6473d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 04/58] fix: forhead paths without a leading slash were ignored
 by splitters

The constructor normalized the caller's list instead of its own copy.
---
 multibag/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 586976c..23d214c 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -537,9 +537,9 @@ class WellPackedSplitter(Splitter):
         if forhead is None:
             forhead = []
         self.forhead = list(forhead)
-        for i in range(len(forhead)):
-            if not forhead[i].startswith('/'):
-                forhead[i] = '/'+forhead[i]
+        for i in range(len(self.forhead)):
+            if not self.forhead[i].startswith('/'):
+                self.forhead[i] = '/'+self.forhead[i]
                 
 
     def _create_plan(self, bagpath):
-- 
2.43.0


From 28d6bfbfc5a653ff7eb719d20088b478ab3006a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:12 +0000
Subject: [PATCH 05/58] fix: merging of manifests when restoring a bag

---
 multibag/restore.py | 69 ++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0abd844..f581774 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -182,6 +182,8 @@ class BagRestorer(object):
         updated = []
 
         srcbag = as_extended(open_bag(srcbag))
+        manfiles = [os.path.basename(m) for m in
+                    list(srcbag.manifest_files()) + list(srcbag.tagmanifest_files())]
         for root, dirs, files in srcbag.walk():
             if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:
                 # if this root directory has been marked as deleted, skip it
@@ -192,6 +194,9 @@ class BagRestorer(object):
             for f in files:
                 if os.path.join(root, f) in skip:
                     continue
+                if not root and f in manfiles:
+                    # the manifests get merged below
+                    continue
                 destf = os.path.join(self._destdir, root, f)
                 if overwrite and os.path.exists(destf):
                     os.remove(destf)
@@ -221,39 +226,45 @@ class BagRestorer(object):
             if rmtime:
                 os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
 
-        if updated:
-            self._update_manifests(srcbag, updated)
+        self._update_manifests(srcbag, updated, skip)
 
-    def _update_manifests(self, srcbag, updated):
-        destbag = open_bag(self._destdir)
+    def _update_manifests(self, srcbag, updated, skip=None):
+        """
+        merge the manifest entries of a source bag into the destination bag's manifests
+        :param srcbag:     the bag that files were copied from
+        :param updated:    the paths to the files that were copied into the destination bag
+        :param skip:       the paths that were not copied because they are marked as deleted
+        """
+        def skipped(path):
+            return any([path == f or path.startswith(f+'/') for f in (skip or [])])
 
-        updated_by_alg = OrderedDict()
-        for path in updated:
-            if path in srcbag.entries:
-                for alg in srcbag.entries[path]:
-                    if alg not in updated_by_alg:
-                        updated_by_alg[alg] = OrderedDict()
-                    updated_by_alg[alg][path] = srcbag.entries[path][alg]
-                
+        destbag = open_bag(self._destdir)
+        updated = set([path.lstrip('/') for path in updated])
+
+        entries = OrderedDict()
+        for path in srcbag.entries:
+            # include files that were not copied because they still need to be fetched
+            if path in updated or \
+               (path.startswith("data/") and path not in destbag.entries and not skipped(path) and
+                not os.path.exists(os.path.join(self._destdir, path))):
+                entries[path] = srcbag.entries[path]
         for path in destbag.entries:
-            for alg in updated_by_alg:
-                if path not in updated_by_alg[alg]:
-                    updated_by_alg[alg][path] = destbag.entries[path][alg]
-
-        for alg in updated_by_alg:
-            files = [f for f in updated_by_alg[alg].keys() if f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "manifest-%s.txt" % alg)
-                with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
-                    for f in files:
-                        fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
-
-            files = [f for f in updated_by_alg[alg].keys() if not f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "tagmanifest-%s.txt" % alg)
+            if path not in updated:
+                entries[path] = destbag.entries[path]
+
+        for prefix in ["manifest-", "tagmanifest-"]:
+            algs = set([alg for path in entries for alg in entries[path]
+                            if path.startswith("data/") == (prefix == "manifest-")])
+            for bag in [srcbag, destbag]:
+                mfiles = bag.manifest_files() if prefix == "manifest-" else bag.tagmanifest_files()
+                algs.update([os.path.basename(m)[len(prefix):-len(".txt")] for m in mfiles])
+
+            for alg in sorted(algs):
+                mfp = os.path.join(self._destdir, "%s%s.txt" % (prefix, alg))
                 with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
-                    for f in files:
-                        fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
+                    for f in entries:
+                        if f.startswith("data/") == (prefix == "manifest-") and alg in entries[f]:
+                            fd.write(u"%s %s\n" % (entries[f][alg], f))
 
         
     def restore_fetch(self, members=None):
-- 
2.43.0


From cf06f52935de1096f4698ea1b9bd413b096c6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:45 +0000
Subject: [PATCH 06/58] fix: files marked as deleted were kept when restoring
 in place

---
 multibag/restore.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index f581774..0b4c83e 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -252,10 +252,17 @@ class BagRestorer(object):
             if path not in updated:
                 entries[path] = destbag.entries[path]
 
+        self._write_manifests(entries, [srcbag, destbag])
+
+    def _write_manifests(self, entries, bags):
+        """
+        write the given manifest entries to the destination bag's manifest files.  A manifest file
+        is written for each algorithm used by the entries or for which the given bags have one. 
+        """
         for prefix in ["manifest-", "tagmanifest-"]:
             algs = set([alg for path in entries for alg in entries[path]
                             if path.startswith("data/") == (prefix == "manifest-")])
-            for bag in [srcbag, destbag]:
+            for bag in bags:
                 mfiles = bag.manifest_files() if prefix == "manifest-" else bag.tagmanifest_files()
                 algs.update([os.path.basename(m)[len(prefix):-len(".txt")] for m in mfiles])
 
@@ -267,6 +274,31 @@ class BagRestorer(object):
                             fd.write(u"%s %s\n" % (entries[f][alg], f))
 
         
+    def _remove_deleted(self, deleted):
+        """
+        remove from an existing destination bag the files and directories that have been marked 
+        as deleted from the aggregation.
+        """
+        root = os.path.normpath(self._destdir)
+        for path in deleted:
+            target = os.path.normpath(os.path.join(root, path))
+            if not target.startswith(root + os.sep):
+                continue
+            if os.path.isdir(target) and not os.path.islink(target):
+                shutil.rmtree(target)
+            elif os.path.lexists(target):
+                os.remove(target)
+
+        # drop their manifest entries, too
+        if os.path.isfile(os.path.join(root, "bagit.txt")):
+            destbag = open_bag(root)
+            gone = [p for p in destbag.entries
+                      if any([p == f or p.startswith(f+'/') for f in deleted])]
+            if gone:
+                for p in gone:
+                    del destbag.entries[p]
+                self._write_manifests(destbag.entries, [destbag])
+
     def restore_fetch(self, members=None):
         """
         restore the fetch file to the output bag.  
@@ -301,6 +333,8 @@ class BagRestorer(object):
         members = list(reversed(self._head.member_bags()))
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
+        elif skip:
+            self._remove_deleted(skip)
 
         if self._head.isfile("multibag/aggregation-info.txt"):
             with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
-- 
2.43.0


From 453eee0ee90a879d5a4907b78d664f07194132d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:48 +0000
Subject: [PATCH 07/58] fix: merging of fetch.txt files when restoring a bag

---
 multibag/restore.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0b4c83e..ddc636f 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -163,13 +163,13 @@ class BagRestorer(object):
         self._restore_from(src, skip, overwrite)
 
         if fetch is not None:
-            membag = open_bag(src)
+            membag = as_extended(open_bag(src))
             if membag.isfile("fetch.txt"):
                 with membag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        filen = line.strip().rsplit(None, 1)[0]
-                        if filen not in fetch:
-                            fetch[filen] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2 and parts[2] not in fetch:
+                            fetch[parts[2]] = line
 
     def _restore_from(self, srcbag, skip=None, overwrite=False):
         if os.path.abspath(srcbag) == self._destdir:
@@ -194,8 +194,8 @@ class BagRestorer(object):
             for f in files:
                 if os.path.join(root, f) in skip:
                     continue
-                if not root and f in manfiles:
-                    # the manifests get merged below
+                if not root and (f in manfiles or f == "fetch.txt"):
+                    # the manifests get merged below, and the fetch list, by restore_fetch()
                     continue
                 destf = os.path.join(self._destdir, root, f)
                 if overwrite and os.path.exists(destf):
@@ -308,21 +308,33 @@ class BagRestorer(object):
 
         if members is None:
             members = list(self._head.member_bags())
+        deleted = self._head.deleted_paths()
         fetch = OrderedDict()
         for member in members:
-            src = self.get_member_bag(member.name)
-            bag = open_bag(src)
+            if member.name == self._head.name:
+                bag = self._head
+            else:
+                src = self.get_member_bag(member.name)
+                if not src:
+                    raise FileNotFoundError("Member bag not found: "+member.name)
+                bag = as_extended(open_bag(src))
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        parts = line.strip().rsplit(None, 1)
-                        if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line
+                        # fields: URL, length, file path
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2:
+                            fetch[parts[2]] = line.strip()
+
+        fetch = [fetch[f] for f in fetch
+                          if not any([f == d or f.startswith(d+'/') for d in deleted])]
+        fp = os.path.join(self._destdir, "fetch.txt")
         if fetch:
-            fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
-                for f in fetch:
-                    fd.write(fetch[f])
+                for line in fetch:
+                    fd.write(line + u"\n")
+        elif os.path.exists(fp):
+            os.remove(fp)
 
     def restore(self, update_sizes=True, remove_multibag_tags=True):
         """
@@ -352,8 +364,7 @@ class BagRestorer(object):
             self.restore_member(member.name, skip)
 
         # now build the fetch.txt file if any found
-        if members:  # skipping head bag
-            self.restore_fetch(members)
+        self.restore_fetch()
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-- 
2.43.0


From 3c830d5750c0cbe4aa0aa1224e3351effff24cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:23 +0000
Subject: [PATCH 08/58] fix: restoring a head bag with its own multibag tag
 directory name

---
 multibag/restore.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index ddc636f..3743ebb 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -91,7 +91,7 @@ class BagRestorer(object):
         if not compdir:
             if self._fetcher:
                 # set a default cached directory inside the target destination bag
-                compdir = os.path.join(self._destdir, "multibag", "_membercache")
+                compdir = os.path.join(self._destdir, self._head.multibag_tag_dir, "_membercache")
             else:
                 compdir = os.path.dirname(os.path.abspath(self._head.path))
         self._cachedir = compdir
@@ -348,8 +348,9 @@ class BagRestorer(object):
         elif skip:
             self._remove_deleted(skip)
 
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+        agginfo = "/".join([self._head.multibag_tag_dir, "aggregation-info.txt"])
+        if self._head.isfile(agginfo):
+            with self._head.open_text_file(agginfo) as fd:
                 content = fd.read()
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
@@ -368,7 +369,9 @@ class BagRestorer(object):
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, "multibag"))
+            mbdir = os.path.normpath(os.path.join(self._destdir, self._head.multibag_tag_dir))
+            if os.path.isdir(mbdir) and mbdir.startswith(os.path.normpath(self._destdir)+os.sep):
+                shutil.rmtree(mbdir)
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
-- 
2.43.0


From 6f6834563c9dc1f0b14ed6fe4835928898001bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:41 +0000
Subject: [PATCH 09/58] fix: parsing of spaces, comments and missing names in
 multibag tag files

---
 multibag/access/multibag.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 064160b..944b828 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -53,10 +53,11 @@ class MemberInfo(object):
         The output will contain a trailing newline character.
         """
         out = self.name
-        if self.uri:
-            out += "\t"+self.uri
+        if self.uri or self.info:
+            # the URI column must be there, if only empty, when other info follows
+            out += "\t"+(self.uri or "")
         if self.info:
-            out += "\t"+"\t".join(info)
+            out += "\t"+"\t".join(self.info)
         if self.comment:
             out += "\t# " + self.comment
         out += "\n"
@@ -68,18 +69,23 @@ class MemberInfo(object):
         parse a line from a member-bags.tsv file according to the multibag
         profile version 0.4, returning a MemberInfo object
         """
-        fields = line.strip().split('\t')
-        if len(fields) < 1 or not fields[0]:
+        fields = line.rstrip().split('\t')
+        name = fields.pop(0).strip()
+        if not name:
             raise MultibagError("Multibag syntax error in member-bags.tsv: "+
                                 "missing fields: " + line.strip())
-        name = fields.pop(0)
         comm = None
         uri = None
+        for i, field in enumerate(fields):
+            # a comment runs to the end of the line
+            if field.startswith('# '):
+                fields[i:] = ['\t'.join(fields[i:])]
+                break
         if len(fields) > 0:
             if fields[-1].startswith('#'):
                 comm = fields.pop(-1).lstrip('#').strip()
         if len(fields) > 0:
-            uri = fields.pop(0)
+            uri = fields.pop(0) or None
         
         return MemberInfo(name, uri, comm, *fields)
 
@@ -109,8 +115,8 @@ def parse_file_lookup_line_03(line):
     :rtype:  a 2-tuple containing the bag file path and the name of the 
              bag containing that file.  
     """
-    out = line.strip().split('\t')
-    if len(out) < 2:
+    out = [f.strip() for f in line.split('\t')]
+    if len(out) < 2 or not out[0] or not out[1]:
         raise MultibagError("Multibag syntax error in file-lookup.tsv: "+
                             "missing bagname field: " + line.strip())
     return (out[0], out[1])
-- 
2.43.0


From d5ba879401bce8dc35e8d9286cbeca88a899ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:44 +0000
Subject: [PATCH 10/58] fix: head bag edits lost the unloaded member and
 deleted lists

---
 multibag/access/multibag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 944b828..f6942c6 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -515,7 +515,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         subsequently called; they are not called internally by this method.
         """
         if self._memberbags is None:
-            self.member_bags
+            self.member_bags()
 
         if self._memberbags:
             idxs = [i for i in range(len(self._memberbags))
@@ -654,7 +654,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         self._deleted.add(filepath)
@@ -670,7 +670,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         if filepath in self._deleted:
-- 
2.43.0


From e76ac72029ce58c4119dac15c042844a6f75b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:48 +0000
Subject: [PATCH 11/58] fix: update_for_member() given a single path to exclude

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index f6942c6..4548fb3 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -585,7 +585,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if exclude is None:
             exclude = []
         elif isinstance(exclude, (str,_unicode)):
-            include = [exclude]
+            exclude = [exclude]
         elif not isinstance(exclude, list):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
-- 
2.43.0


From 7ed24034af47d470a03032fd8a56734e51028be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:52 +0000
Subject: [PATCH 12/58] fix: excluding a directory's contents when registering
 a read-only bag

---
 multibag/access/multibag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 4548fb3..15ee4de 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -599,10 +599,10 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                 self.add_file_lookup(incl, member_name)
 
             elif bag.isdir(incl):
+                skipped = []
                 for d, subdirs, files in bag.walk(incl):
-                    if d and d in exclude:
-                        for i in range(len(subdirs)):
-                            subdirs.pop(0)
+                    if d and (d in exclude or any([d.startswith(s+'/') for s in skipped])):
+                        skipped.append(d)
                         continue
                     for f in files:
                         f = "/".join([d, f])
-- 
2.43.0


From 73b1c723215f1897ddd245fd6813823ce581415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:55 +0000
Subject: [PATCH 13/58] fix: reading a head bag with repeated
 Multibag-Tag-Directory tags

---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 15ee4de..ec3e7f3 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -211,7 +211,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         opens the file anew and returns the contents via an iterator that returns
         MemberInfo instances.
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-members.txt") \
                       or "member-bags.tsv"
@@ -251,7 +251,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         """
         iterate through the contents of the multibag/file-lookup.tsv
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-directory.txt") \
                       or "file-lookup.tsv"
-- 
2.43.0


From 6152b02a60a5e2f4376cb7892ae0d82dbb845d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 14/58] fix: creating a multibag tag directory below the root
 directory

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index ec3e7f3..0a7ec9c 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -430,7 +430,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         """
         mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)
         if not os.path.exists(mbdir):
-            os.mkdir(mbdir)
+            os.makedirs(mbdir)
 
     def save_member_bags(self):
         """
-- 
2.43.0


From d8b8661ef45966fa2e3c5cc71bf46eeb9c31417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:54 +0000
Subject: [PATCH 15/58] fix: applying a split plan with a naming iterator

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 23d214c..9b9f332 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -261,7 +261,7 @@ class SplitPlan(object):
             bagname = m.get('name')
             if naming_iter:
                 try:
-                    bagname = naming_iter.next()
+                    bagname = next(naming_iter)
                 except StopIteration as ex:
                     if logger and not m.get('ishead'):
                         logger.warn("naming iterator ran out of names before "+
-- 
2.43.0


From 44bab7b6a59c4833f27cb1b5e03fd264e633ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:58 +0000
Subject: [PATCH 16/58] fix: naming output bags with an iterator that has no
 names at all

---
 multibag/split.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/split.py b/multibag/split.py
index 9b9f332..16cb45f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -158,6 +158,7 @@ class SplitPlan(object):
         use = self._manifests
         if reverse:
             use = reversed(use)
+        name = None
         try:
             for m in use:
                 name = next(naming_iter)
-- 
2.43.0


From 3e7d4e4b50c5356ecfb9ef6dd35cc662101c413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:01 +0000
Subject: [PATCH 17/58] fix: splitting a bag that is itself a head bag

---
 multibag/split.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index 16cb45f..f4ea0a3 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -247,6 +247,8 @@ class SplitPlan(object):
         # progenitor is a head bag itself
         filedest = OrderedDict()
         memberbags = []
+        deleted = []
+        superseded = []
         if self.progenitor.is_head_multibag():
             as_headbag(self.progenitor)
             try:
@@ -257,6 +259,12 @@ class SplitPlan(object):
                 filedest = OrderedDict(self.progenitor.iter_file_lookup())
             except MissingMultibagFileError:
                 pass
+            deleted = sorted(self.progenitor.deleted_paths())
+
+            # the progenitor's head bag files are replaced with those of the new head bag
+            superseded = ["/".join([self.progenitor.multibag_tag_dir, f]) for f in
+                          ["member-bags.tsv", "file-lookup.tsv", "deleted.txt",
+                           "aggregation-info.txt", "group-members.txt", "group-directory.txt"]]
         
         for m in self.manifests():
             bagname = m.get('name')
@@ -288,6 +296,8 @@ class SplitPlan(object):
             payload_count = 0
             payload_size = 0
             for file in m['contents']:
+                if file in superseded:
+                    continue
 
                 if not self.progenitor.exists(file):
                     if logger:
@@ -390,6 +400,11 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
+                if deleted:
+                    with io.open(os.path.join(mbagdir, "deleted.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        for f in deleted:
+                            fd.write(u"%s\n" % f)
                 if self.progenitor.isfile("bag-info.txt"):
                     with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
                                  'w', encoding=DEF_ENC) as fd:
-- 
2.43.0


From 7ad19274c75a6d8daeda4d74be2270369119f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:52 +0000
Subject: [PATCH 18/58] fix: split set Multibag-Tag-Directory in bags that are
 not the head bag

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index f4ea0a3..8590c64 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -373,9 +373,9 @@ class SplitPlan(object):
 
                     _write_item(fd, name, vals)
 
-                _write_item(fd, "Multibag-Tag-Directory", "multibag")
                 if m.get('ishead'):
                     # this is the head bag!
+                    _write_item(fd, "Multibag-Tag-Directory", "multibag")
                     _write_item(fd, "Multibag-Head-Version", self.head_version)
                     if self._deprecates:
                         name = "Multibag-Head-Deprecates"
-- 
2.43.0


From 3ab9a6193b7955f7bd92c1f6ec1bc1a281ef31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:42 +0000
Subject: [PATCH 19/58] fix: restoring from a serialized member bag without
 directory entries

---
 multibag/restore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 3743ebb..45c828b 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -207,7 +207,7 @@ class BagRestorer(object):
 
                     # try to copy the modification time
                     times = srcbag.timesfor(srcpath)
-                    if times:
+                    if times and times.mtime is not None:
                         os.utime(destf, (time.time(), times.mtime))
 
             for f in dirs:
@@ -220,7 +220,7 @@ class BagRestorer(object):
                     # try to copy the modification time
                     srcpath = "/".join([root, f])
                     times = srcbag.timesfor(srcpath)
-                    if times:
+                    if times and times.mtime is not None:
                         os.utime(destf, (time.time(), times.mtime))
 
             if rmtime:
-- 
2.43.0


From 9ebd415f9216b4de66b2d86b3b02c4b1eb63444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:11 +0000
Subject: [PATCH 20/58] fix: time stamps of directories that a serialized bag
 has no entry for

---
 multibag/access/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 109f58b..2c0e9f1 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -603,6 +603,9 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
             info = self._root.fs.getinfo(path, namespaces=['details'])
         except ResourceNotFound as ex:
             raise OSError(2, "File not found: "+path)
+        if not info.has_namespace('details'):
+            # e.g. a directory that a zip file only implies
+            return FileTimes(ctime=None, mtime=None, atime=None)
         return FileTimes(ctime=_d2e(info.created), mtime=_d2e(info.modified), atime=_d2e(info.accessed))
 
     def replicate(self, path, destdir, logger=None):
-- 
2.43.0


From 9528552fcfad12c9407a69b4e545a783155c4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:52 +0000
Subject: [PATCH 21/58] fix: amending changed the amended bag object's list of
 deprecated versions

---
 multibag/amend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 7ba41f9..9c3817e 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -277,7 +277,7 @@ class Amender(object):
         if 'Multibag-Head-Deprecates' in self._oldhead.info:
             if isinstance(self._oldhead.info['Multibag-Head-Deprecates'], list):
                 self._newhead.info['Multibag-Head-Deprecates'] = \
-                               self._oldhead.info['Multibag-Head-Deprecates']
+                               list(self._oldhead.info['Multibag-Head-Deprecates'])
             else:
                 self._newhead.info['Multibag-Head-Deprecates'] = \
                               [ self._oldhead.info['Multibag-Head-Deprecates'] ]
-- 
2.43.0


From 47dab5e9903db3ada91f545187385c61cc8fa3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:42 +0000
Subject: [PATCH 22/58] fix: an empty deleted.txt was written when nothing is
 deleted

---
 multibag/access/multibag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 0a7ec9c..27baffe 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -689,6 +689,8 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                                'deleted.txt')
         if not self._deleted and os.path.exists(tagfile):
             os.remove(tagfile)
+        if not self._deleted:
+            return
 
         self.ensure_tagdir()
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
-- 
2.43.0


From e450c66d37dc84dd3c8db6e84fbd64819dcf31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:46 +0000
Subject: [PATCH 23/58] fix: amending forgot the paths deleted from the amended
 aggregation

---
 multibag/amend.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/multibag/amend.py b/multibag/amend.py
index 9c3817e..41317ed 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -234,6 +234,7 @@ class Amender(object):
         self._init_multibag_info(keepprofver)
         self._init_member_bags()
         self._init_file_lookup()
+        self._init_deleted()
 
     def _init_member_bags(self):
         target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
@@ -268,6 +269,19 @@ class Amender(object):
             # just add the files under 'data'
             self._newhead.update_for_member(self._oldhead, make_member=False)
 
+    def _init_deleted(self):
+        # what was deleted from the amended aggregation remains deleted (unless it is provided 
+        # again by an amending bag)
+        if self._oldhead.is_head_multibag():
+            for path in self._oldhead.iter_deleted():
+                self._newhead.set_deleted(path)
+
+    def _undelete_files_in(self, bag):
+        # unmark as deleted any files that are provided by the given amending bag
+        for path in self._newhead.deleted_paths():
+            if bag.isfile(path):
+                self._newhead.unset_deleted(path)
+
     def _init_multibag_info(self, keepprofver=False):
         profver = CURRENT_VERSION
         if keepprofver and 'Multibag-Version' in self._oldhead.info:
@@ -322,6 +336,7 @@ class Amender(object):
         self._newhead.add_member_bag(membag.name, pid, comment, info)
         self._newhead.update_for_member(membag, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(membag)
 
     def finalize(self, version, include_lu=None, exclude_lu=None):
         """
@@ -349,9 +364,11 @@ class Amender(object):
                                      self._info)
         self._newhead.update_for_member(self._newhead, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(self._newhead)
 
         self._newhead.save_member_bags()
         self._newhead.save_file_lookup()
+        self._newhead.save_deleted()
         self._newhead.update_info(version, self._newhead.profile_version)
 
         
-- 
2.43.0


From e465f139e26652049963c2d6662c7ece33f17ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:50 +0000
Subject: [PATCH 24/58] fix: bag names when a bag's directory is given with a
 trailing slash

---
 multibag/access/bagit.py | 1 +
 multibag/amend.py        | 2 +-
 multibag/split.py        | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2e3d29d..312e120 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -635,6 +635,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
+        location = location.rstrip(os.sep) or location
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
diff --git a/multibag/amend.py b/multibag/amend.py
index 41317ed..d58c564 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -71,7 +71,7 @@ class SingleMultibagMaker(object):
         if not self.bag.info.get('Multibag-Version'):
             self.update_info();
         
-        bagname = os.path.basename(self.bagdir)
+        bagname = self.bag.name
         mi = MemberInfo(bagname, pid, comment, *info)
         self.bag.set_member_bags([mi])
         self.bag.save_member_bags()
diff --git a/multibag/split.py b/multibag/split.py
index 8590c64..f11cb28 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -479,7 +479,7 @@ class Splitter(object):
                   be split into multibags.  
         """
         if not namebasis:
-            namebasis = os.path.splitext(os.path.basename(bagpath))[0]
+            namebasis = os.path.splitext(os.path.basename(bagpath.rstrip(os.sep)))[0]
 
         out = self._create_plan(bagpath)
 
-- 
2.43.0


From 05cdf30d418850562626ff96c88dfa42eae0acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:36 +0000
Subject: [PATCH 25/58] fix: no file-lookup.tsv written when converting or
 amending with no payload files

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 27baffe..c870441 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -641,7 +641,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                                'file-lookup.tsv')
         if os.path.exists(tagfile):
             os.remove(tagfile)
-        self._filelu = None
+        self._filelu = OrderedDict()
         
 
     def set_deleted(self, filepath):
-- 
2.43.0


From 733c2379635c5c52e3619c6c96e1d09358c8d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:21 +0000
Subject: [PATCH 26/58] fix: absolute member URLs were reported as not being
 absolute

---
 multibag/validate/headbag.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fc39742..9249b7a 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -326,8 +326,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not urlparse(parts[1]).scheme:
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -406,8 +405,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not urlparse(parts[1]).scheme:
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
-- 
2.43.0


From e6495073f84d177719bde8b934ecbeea244be7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:25 +0000
Subject: [PATCH 27/58] fix: a comment following a member bag's name was
 reported as a bad URL

---
 multibag/validate/headbag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 9249b7a..eff6337 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -404,7 +404,7 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     found.add(last)
-                if len(parts) > 1 and len(parts[1]) > 0:
+                if len(parts) > 1 and len(parts[1]) > 0 and not parts[1].startswith('#'):
                     if not urlparse(parts[1]).scheme:
                         badurl.append(i)
 
-- 
2.43.0


From f9289cc779023eccb7b0320ded27bec3545f203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 28/58] fix: a member-bags.tsv line without a name was not
 reported as malformed

---
 multibag/validate/headbag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index eff6337..897c118 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -396,7 +396,10 @@ class HeadBagValidator(Validator):
                 i += 1
                 if not line.strip():
                     continue
-                parts = [f.strip() for f in line.strip().split('\t')]
+                parts = [f.strip() for f in line.rstrip().split('\t')]
+                if not parts[0]:
+                    badfmt.append(i)
+                    continue
                 last = parts[0]
                 if last == self.bag._name:
                     foundme = True
-- 
2.43.0


From b96ca26651b107bbf617f6a485170c45f4d1f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:32 +0000
Subject: [PATCH 29/58] fix: a file-lookup.tsv line with an empty field was not
 reported as malformed

---
 multibag/validate/headbag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 897c118..4ab20ba 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -505,7 +505,7 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     paths.add(parts[0])
-                if len(parts) != 2:
+                if len(parts) != 2 or not all(parts):
                     badfmt.append(i)
 
                 if len(parts) > 1 and parts[1] == self.bag._name and \
@@ -591,7 +591,7 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     paths.add(parts[0])
-                if len(parts) != 2:
+                if len(parts) != 2 or not all(parts):
                     badfmt.append(i)
 
                 if len(parts) > 1 and parts[1] == self.bag._name and \
-- 
2.43.0


From d8feabd71afd21b08f11e41174d3e382366ed27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:35 +0000
Subject: [PATCH 30/58] fix: a repeated Multibag-Version was reported as having
 the wrong value

---
 multibag/validate/headbag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 4ab20ba..69f8692 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -89,7 +89,7 @@ class HeadBagValidator(Validator):
 
         vers = data["Multibag-Version"]
         if isinstance(data["Multibag-Version"], (list, tuple)):
-            version = data["Multibag-Version"][-1]
+            vers = data["Multibag-Version"][-1]
 
         t = out._issue("3-Version-val",
                        "Multibag-Version must be set to '{0}'".format(version))
-- 
2.43.0


From 5f46e05ca48fe184d47fd571f9e3df6bb7725763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 31/58] fix: head bag validation crashed on bags that are not
 (or not fully) head bags

---
 multibag/validate/headbag.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 69f8692..afdb18d 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -204,7 +204,6 @@ class HeadBagValidator(Validator):
         headver = data.get("Multibag-Head-Version")
         if isinstance(headver, list) and len(headver) > 0:
             headver = headver[-1]
-        assert headver
 
         values = data["Multibag-Head-Deprecates"]
         if not isinstance(values, list):
@@ -225,7 +224,7 @@ class HeadBagValidator(Validator):
             parts = [p.strip() for p in val.split(',')]
             if len(parts) > 2:
                 badfmt.append(val)
-            selfdeprecating = selfdeprecating or parts[0] == headver or \
+            selfdeprecating = selfdeprecating or (headver and parts[0] == headver) or \
                               (len(parts) > 1 and parts[1] == self.bag._name)
 
         t = out._issue("3-Head-Deprecates_format",
@@ -273,7 +272,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -282,7 +280,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
 
         assert mdir
-        assert ishead
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -458,7 +455,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -467,7 +463,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -660,7 +655,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -669,7 +663,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From 1917905f10e9f69a50c25e16c432991f2129ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:45 +0000
Subject: [PATCH 32/58] fix: text file lines of a bag opened for writing were
 split at Unicode line separators

---
 multibag/access/extended.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 2c0e9f1..bc8c8a2 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -5,7 +5,7 @@ can work against the base bagit.Bag class directly or against the ReadOnlyBag
 class which can read serialized versions of bags.  
 """
 from __future__ import absolute_import
-import os, sys, re, shutil, codecs, inspect
+import os, sys, io, re, shutil, inspect
 from collections import OrderedDict, namedtuple
 from abc import ABCMeta, abstractmethod
 from datetime import datetime, tzinfo
@@ -387,7 +387,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                              file.  (Default: "utf-8-sig").
         """
         path = self._canon_path(path)
-        return codecs.open(path, encoding=encoding);
+        return io.open(path, encoding=encoding)
         
     def walk(self, start=None):
         """
-- 
2.43.0


From 27d0a1db290ba4b14ec92842fbc29216c7b6a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:50 +0000
Subject: [PATCH 33/58] fix: failures to copy a file of a bag were ignored

---
 multibag/access/extended.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index bc8c8a2..f818d14 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -365,7 +365,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to create hard link for data file (" + path + \
                           "): " + str(ex) + "; swithching to copy mode."
-                    self.logger.warning(msg)
+                    logger.warning(msg)
 
         if not hardlink:
             try:
@@ -374,7 +374,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to copy data file (" + path + \
                           ") into bag (" + destdir + "): " + str(ex)
-                    self.log.exception(msg, exc_info=True)
+                    logger.exception(msg)
+                raise
         
     def open_text_file(self, path, encoding='utf-8-sig'):
         """
-- 
2.43.0


From 6f724fd7f3056c4298f1844d5e10a37220e95026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:54 +0000
Subject: [PATCH 34/58] fix: destination directories with URL characters in
 their paths were misread when replicating files

---
 multibag/access/extended.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index f818d14..0e1f0d1 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -15,7 +15,7 @@ from bagit import _parse_tags
 
 from fs.copy import copy_file
 from fs.errors import ResourceNotFound
-from fs import open_fs
+from fs.osfs import OSFS
 
 if sys.version_info[0] > 2:
     _unicode = str
@@ -626,7 +626,7 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
             raise ValueError("replicate: file/dir does not exist in this bag: " +
                              path)
 
-        destfs = open_fs(destdir)
+        destfs = OSFS(destdir, expand_vars=False)
         if self.isdir(path):
     
             if not destfs.isdir(path):
-- 
2.43.0


From 0b6d5fc11c1f10149c408ae8fa045fc272f8b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:58 +0000
Subject: [PATCH 35/58] fix: paths to siblings of a writable bag's directory
 were taken as being in the bag

---
 multibag/access/extended.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 0e1f0d1..555944d 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -260,11 +260,18 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
     def _canon_path(self, path):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
-        path = os.path.normpath(os.path.join(self._bagdir, path))
-        if not path.startswith(os.path.normpath(self._bagdir)):
+        root = os.path.abspath(self._bagdir)
+        path = os.path.abspath(os.path.join(root, path))
+        if path != root and not path.startswith(os.path.join(root, '')):
             return None
         return path
 
+    def _canon_existing_path(self, path):
+        out = self._canon_path(path)
+        if out is None:
+            raise OSError(2, "File not found in bag: "+path)
+        return out
+
     def exists(self, path):
         """
         return True if the given path exists in this bag.  
@@ -306,16 +313,14 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                           delimiter.
         :rtype int:  the size of the file in bytes
         """
-        path = self._canon_path(path)
-        return os.stat(path).st_size
+        return os.stat(self._canon_existing_path(path)).st_size
 
     def timesfor(self, path):
         """
         return the timestamps associated with a file or directory with the given path.
         :rtype: FileTimes named tuple
         """
-        path = self._canon_path(path)
-        st = os.stat(path)
+        st = os.stat(self._canon_existing_path(path))
         return FileTimes(ctime=st.st_ctime, mtime=st.st_mtime, atime=st.st_atime)
 
     def replicate(self, path, destdir, logger=None):
@@ -387,8 +392,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         :param str encoding  a label indicating the encoding to expect in the 
                              file.  (Default: "utf-8-sig").
         """
-        path = self._canon_path(path)
-        return io.open(path, encoding=encoding)
+        return io.open(self._canon_existing_path(path), encoding=encoding)
         
     def walk(self, start=None):
         """
@@ -413,14 +417,14 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         start = os.path.join(*(re.split(r'/+', start)))
         if os.path.isabs(start):
             raise ValueError("walk(): start must not be absolute: "+start)
-        root = os.path.join(self._bagdir, start).rstrip(os.sep)
-        if not os.path.isdir(root):
+        base = self._canon_path('')
+        root = self._canon_path(start)
+        if root is None or not os.path.isdir(root):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
         for dir, subdirs, files in os.walk(root):
             # make dir relative to bag's root directory
-            if dir.startswith(self._bagdir):
-                dir = dir[len(self._bagdir):].lstrip(os.sep)
+            dir = dir[len(base):].lstrip(os.sep)
             dir = _ossepre.sub('/', dir)
             
             yield dir, subdirs, files
-- 
2.43.0


From 81504ab7accbc021f4d5b09f69140f61b0d4f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:02 +0000
Subject: [PATCH 36/58] fix: asking a read-only bag about a path outside of it
 raised an exception

---
 multibag/access/bagit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 312e120..6fafc33 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -6,7 +6,7 @@ etc.).
 from __future__ import absolute_import
 import os, sys
 from collections import OrderedDict
-import fs.osfs, fs.zipfs, fs.tarfs
+import fs.osfs, fs.zipfs, fs.tarfs, fs.errors
 
 import bagit as _bagit
 from bagit import *    # import everything!
@@ -238,7 +238,7 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a relative path to a directory or file within the bag
         """
-        return self._root.fs.exists(path)
+        return self._ask_fs(self._root.fs.exists, path)
 
     def isfile(self, path):
         """
@@ -247,7 +247,7 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a path to a file relative to the bag's root directory
         """
-        return self._root.fs.isfile(path)
+        return self._ask_fs(self._root.fs.isfile, path)
 
     def isdir(self, path):
         """
@@ -257,7 +257,14 @@ class ReadOnlyBag(_bagit.Bag):
         :param str path:  a path to a directory relative to the bag's root 
                           directory
         """
-        return self._root.fs.isdir(path)
+        return self._ask_fs(self._root.fs.isdir, path)
+
+    def _ask_fs(self, question, path):
+        try:
+            return question(path)
+        except fs.errors.IllegalBackReference:
+            # path leads out of the bag
+            return False
 
     def open_text_file(self, path, encoding='utf-8', errors='strict',
                        buffering=-1):
-- 
2.43.0


From 7fb75394dc64d94cf2698ac043da43312f893075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:07 +0000
Subject: [PATCH 37/58] fix: manifest paths into a sibling directory whose name
 extends the bag's name were accepted

---
 multibag/access/bagit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 6fafc33..78531fb 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -560,8 +560,7 @@ class ReadOnlyBag(_bagit.Bag):
         # possible problem: we're not resolving links.  (Shouldn't happen)
         real_path = os.path.normpath(os.path.join(self.path, path))
         bag_path = os.path.normpath(self.path)
-        common = os.path.commonprefix((bag_path, real_path))
-        return not (common == bag_path)
+        return real_path != bag_path and not real_path.startswith(os.path.join(bag_path, ''))
 
 def _calc_hashes(args):
     # auto unpacking of sequences illegal in Python3
-- 
2.43.0


From a1b38dbfa6ecd14510c3328338788b9eb652ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:10 +0000
Subject: [PATCH 38/58] fix: byte-order marks were not skipped in text files of
 read-only bags

---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 78531fb..04321a6 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -266,7 +266,7 @@ class ReadOnlyBag(_bagit.Bag):
             # path leads out of the bag
             return False
 
-    def open_text_file(self, path, encoding='utf-8', errors='strict',
+    def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
         """
         open the file with the given path for reading and return a file 
-- 
2.43.0


From ce0f2861ca5db71a89feca78b1357b6a720f4682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:26 +0000
Subject: [PATCH 39/58] fix: bags could not be opened as (or were called) the
 current directory, '.'

---
 multibag/access/bagit.py    | 8 ++++++--
 multibag/access/extended.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 04321a6..e676f43 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -155,6 +155,8 @@ class ReadOnlyBag(_bagit.Bag):
             raise BagError(_("path to bag root directory not provided"))
         if not isinstance(bagpath, Path):
             bagpath = bagpath.rstrip("/")
+            if os.path.basename(bagpath) in (os.curdir, os.pardir):
+                bagpath = os.path.abspath(bagpath)
             parent = os.path.dirname(bagpath) or "."
             bagname = os.path.basename(bagpath)
             if not location:
@@ -558,8 +560,8 @@ class ReadOnlyBag(_bagit.Bag):
             return True
 
         # possible problem: we're not resolving links.  (Shouldn't happen)
-        real_path = os.path.normpath(os.path.join(self.path, path))
-        bag_path = os.path.normpath(self.path)
+        bag_path = os.path.abspath(self.path)
+        real_path = os.path.normpath(os.path.join(bag_path, path))
         return real_path != bag_path and not real_path.startswith(os.path.join(bag_path, ''))
 
 def _calc_hashes(args):
@@ -642,6 +644,8 @@ def open_bag(location):
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
         location = location.rstrip(os.sep) or location
+        if os.path.basename(location) in (os.curdir, os.pardir):
+            location = os.path.abspath(location)
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 555944d..3a8ca0e 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -227,7 +227,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             kw = self._ctor_bind_args(args, kw)
             
             self._bagdir = kw['bagdir'].rstrip(os.sep)
-            self._bagname = os.path.basename(self._bagdir)
+            self._bagname = os.path.basename(os.path.abspath(self._bagdir))
             self._replwhl = True
             super(_ExtendedReadWritableMixin, self).__init__()
 
-- 
2.43.0


From aca5cb6912de48fd1ffc7002546d29d129f9fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 40/58] fix: BagIt validation crashed on bags with malformed
 Payload-Oxum and other damage

---
 multibag/validate/bag.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multibag/validate/bag.py b/multibag/validate/bag.py
index 7871415..29c979e 100644
--- a/multibag/validate/bag.py
+++ b/multibag/validate/bag.py
@@ -38,7 +38,11 @@ class BagValidator(Validator):
                 comments = [ex.message] + ex.details
             except BagError as ex:
                 passed = False
-                comments = [ex.message]
+                comments = [str(ex)]
+            except Exception as ex:
+                # the bag is damaged in a way that keeps it from being tested completely
+                passed = False
+                comments = ["Unable to validate bag: {0}: {1}".format(type(ex).__name__, ex)]
 
             results._err(issue, passed, comments)
 
-- 
2.43.0


From 237a5eb168453bce3064a91dd420ae9a5cbfde0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 41/58] fix: validating a read-only bag with an unlisted
 payload file raised KeyError

---
 multibag/access/bagit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index e676f43..137adfd 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -298,7 +298,9 @@ class ReadOnlyBag(_bagit.Bag):
         payload_dir = self._root.subfspath("data")
 
         for f in payload_dir.fs.walk.files():
-            yield "data/"+f.lstrip('/')
+            rel_path = "data/"+f.lstrip('/')
+            self.normalized_filesystem_names[normalize_unicode(rel_path)] = rel_path
+            yield rel_path
 
     def save(self, processes=1, manifests=False):
         """
-- 
2.43.0


From ede2c41f251478a5d9e27b64a2af66c514a51b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 42/58] fix: validating a read-only bag raised an fs exception
 when a listed file could not be read

---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 137adfd..66f7652 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -603,7 +603,7 @@ def _calculate_file_hashes(full_path, f_hashers):
                     break
                 for i in f_hashers.values():
                     i.update(block)
-    except (OSError, IOError) as e:
+    except (OSError, IOError, fs.errors.FSError) as e:
         raise BagValidationError(_("Could not read %(filename)s: %(error)s") % {
             'filename': full_path,
             'error': _unicode(e),
-- 
2.43.0


From 0a90a383891809266604018836a7b2116503539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:31 +0000
Subject: [PATCH 43/58] fix: head bag validation crashed on a bag without a
 data directory

---
 multibag/validate/headbag.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index afdb18d..284d318 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -542,8 +542,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        datafiles = []
+        if self.bag.isdir("data"):
+            datafiles = self.bag._root.subfspath("data").fs.walk.files()
+        for df in datafiles:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -628,8 +630,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        datafiles = []
+        if self.bag.isdir("data"):
+            datafiles = self.bag._root.subfspath("data").fs.walk.files()
+        for df in datafiles:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
-- 
2.43.0


From 2ffc5c3c4922facd47786a44f2e8c1afa5330b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:35 +0000
Subject: [PATCH 44/58] fix: head bag validation crashed on an empty, repeated
 Multibag-Tag-Directory

---
 multibag/validate/headbag.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 284d318..a706dd0 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -277,9 +277,7 @@ class HeadBagValidator(Validator):
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-
-        assert mdir
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -460,9 +458,7 @@ class HeadBagValidator(Validator):
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -664,9 +660,7 @@ class HeadBagValidator(Validator):
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
+        mdir = mdir[-1] or "multibag"
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From 6e99e869cfa41fd8b11eab542f4dbca8b67114d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 45/58] fix: head bag validation crashed on malformed URLs

---
 multibag/validate/headbag.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index a706dd0..5695026 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -12,6 +12,13 @@ from .base import (Validator, ValidationIssue, ValidationResults,
 from .bag import BagValidator
 from ..access.bagit import BagValidationError, BagError, open_bag, _load_tag_file
 
+def _parse_url(url):
+    try:
+        return urlparse(url)
+    except ValueError:
+        # e.g. a malformed IPv6 address
+        return urlparse("")
+
 class HeadBagValidator(Validator):
     """
     A validator that tests whether a given Bag (serialized or otherwise) complies
@@ -120,7 +127,7 @@ class HeadBagValidator(Validator):
 
         t = out._issue("3-Reference-val",
                        "Multibag-Reference value must be an absolute URL")
-        url = urlparse(url)
+        url = _parse_url(url)
         out._err(t, url.scheme and url.netloc)
 
         return out
@@ -321,7 +328,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    if not urlparse(parts[1]).scheme:
+                    if not _parse_url(parts[1]).scheme:
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -403,7 +410,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0 and not parts[1].startswith('#'):
-                    if not urlparse(parts[1]).scheme:
+                    if not _parse_url(parts[1]).scheme:
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
-- 
2.43.0


From a3f9faea9dd03345e8df2d8d719990ca5bf6fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:47 +0000
Subject: [PATCH 46/58] fix: ValidationIssue.from_tuple() did not understand
 what to_tuple() returns

---
 multibag/validate/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index 48607e1..f8b5096 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -187,8 +187,8 @@ class ValidationIssue(object):
 
     @classmethod
     def from_tuple(cls, data):
-        return ValidationIssue(data[1], data[2], data[3], data[0], 
-                               data[4], data[5], data[6])
+        return ValidationIssue(data[3], data[0], data[4], data[5], 
+                               data[6], data[2])
 
 class ValidationResults(object):
     """
-- 
2.43.0


From 9fe37da832e906f35284b4c4b31ab4b352fa1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:51 +0000
Subject: [PATCH 47/58] fix: ValidationIssue.to_json_obj() always failed

---
 multibag/validate/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index f8b5096..c2a17e2 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -178,10 +178,10 @@ class ValidationIssue(object):
         """
         return OrderedDict([
             ("type", type_labels[self.type]),
-            ("profile_name", self.profile),
+            ("profile_name", "multibag"),
             ("profile_version", self.profile_version),
             ("label", self.label),
-            ("spec", self.message),
+            ("spec", self.specification),
             ("comments", self.comments)
         ])
 
-- 
2.43.0


From c636b81de1aa0786224058cdb38c875ffa59745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:55 +0000
Subject: [PATCH 48/58] fix: unrecognized issue types raised the wrong
 exception

---
 multibag/validate/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index c2a17e2..5ee868d 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -87,7 +87,7 @@ class ValidationIssue(object):
     def type(self, issuetype):
         if issuetype not in issuetypes:
             raise ValueError("ValidationIssue: not a recognized issue type: "+
-                             issuetype)
+                             str(issuetype))
         self._type = issuetype
 
     @property
-- 
2.43.0


From ce3a52c1a58316a04f7fccc56136ef17eddcbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 49/58] fix: replicate() wrote outside of its destination for
 paths that step out of and back into the bag

---
 multibag/access/extended.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 3a8ca0e..0f4296b 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -343,7 +343,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             raise ValueError("replicate: file/dir does not exist in this bag: " +
                              path)
         
-        destpath = os.path.join(destdir, path)
+        # (path may step out of and back into the bag)
+        destpath = os.path.join(destdir, os.path.relpath(self._canon_path(path), self._canon_path('')))
         if self.isdir(path):
             if not os.path.isdir(destpath):
                 if logger:
-- 
2.43.0


From 03c9b9781cb6534fd16d921c5ab510da34e0a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:58 +0000
Subject: [PATCH 50/58] fix: head bag files were written outside of the bag for
 a Multibag-Tag-Directory like '../x'

---
 multibag/access/multibag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index c870441..a3770e1 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -203,6 +203,8 @@ class HeadBagReadMixin(ExtendedReadMixin):
                 out = defval
             else:
                 out = out[-1]
+        if os.path.isabs(out) or os.path.normpath(out).split(os.sep)[0] == os.pardir:
+            raise MultibagError("Multibag-Tag-Directory is not inside the bag: " + out)
         return out
 
     def iter_member_bags(self):
-- 
2.43.0


From 52e958b4216cd0b920c0edf36c7bfe6a998abb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:08 +0000
Subject: [PATCH 51/58] fix: walk() of a read-only bag gave double slashes for
 a start directory ending in a slash

---
 multibag/access/extended.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 0f4296b..744ab6b 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -693,7 +693,7 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
         while True:
             try: 
                 base, dirs, files = next(witer)
-                base = '/'.join([start, base.lstrip('/')]).strip('/')
+                base = '/'.join([start.rstrip('/'), base.lstrip('/')]).strip('/')
                 yield base, [d.name for d in dirs], [f.name for f in files]
             except StopIteration:  # see PEP0479 for supporting 3.7+
                 return
-- 
2.43.0


From c1130fce2beb8cb3a71c32cbf3c4f9bc0397352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:11 +0000
Subject: [PATCH 52/58] fix: versions made from a str and from a tuple could
 not be compared

---
 multibag/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/constants.py b/multibag/constants.py
index 2b7994f..cf1188e 100644
--- a/multibag/constants.py
+++ b/multibag/constants.py
@@ -44,12 +44,12 @@ class Version(object):
     def __eq__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields == other.fields
+        return tuple(self.fields) == tuple(other.fields)
 
     def __lt__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields < other.fields
+        return tuple(self.fields) < tuple(other.fields)
 
     def __le__(self, other):
         if not isinstance(other, Version):
-- 
2.43.0


From c15900d4fedc0fef714d5c098ceaf70806ba4313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:43 +0000
Subject: [PATCH 53/58] fix: directories that can not be read were silently
 left out of splits and restores

---
 multibag/access/extended.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 744ab6b..5d769b7 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -423,7 +423,11 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if root is None or not os.path.isdir(root):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
-        for dir, subdirs, files in os.walk(root):
+        def fail(ex):
+            # don't pass over a directory that can't be read
+            raise ex
+
+        for dir, subdirs, files in os.walk(root, onerror=fail):
             # make dir relative to bag's root directory
             dir = dir[len(base):].lstrip(os.sep)
             dir = _ossepre.sub('/', dir)
-- 
2.43.0


From 3f831745d58f856aab5c6f9852bf1b8b4773bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:29 +0000
Subject: [PATCH 54/58] fix: restoring passed over a truncated member bag
 without any manifest

---
 multibag/restore.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 45c828b..ab9cc73 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -9,7 +9,7 @@ from .access.bagit import Bag, ReadOnlyBag
 from .access.multibag import (is_headbag, as_headbag, open_headbag, MissingMultibagFileError,
                               HeadBag, ReadOnlyHeadBag, MultibagError, ExtendedReadWritableBag)
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
-from .access.bagit import _ext_fs_lookup, open_bag, Bag
+from .access.bagit import BagError, _ext_fs_lookup, open_bag, Bag
 
 class _FileNotFoundError(OSError):
     def __init__(self, message):
@@ -184,6 +184,9 @@ class BagRestorer(object):
         srcbag = as_extended(open_bag(srcbag))
         manfiles = [os.path.basename(m) for m in
                     list(srcbag.manifest_files()) + list(srcbag.tagmanifest_files())]
+        if not any([m.startswith("manifest-") for m in manfiles]):
+            # e.g. what's left of a truncated tar file
+            raise BagError("Member bag has no payload manifest: "+srcbag.name)
         for root, dirs, files in srcbag.walk():
             if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:
                 # if this root directory has been marked as deleted, skip it
-- 
2.43.0


From 29a00f299988e924d13182fffaac1ee58ac5faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:56 +0000
Subject: [PATCH 55/58] fix: a failed restore in place left the head bag
 unusable

---
 multibag/restore.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index ab9cc73..1f4ae73 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -351,14 +351,6 @@ class BagRestorer(object):
         elif skip:
             self._remove_deleted(skip)
 
-        agginfo = "/".join([self._head.multibag_tag_dir, "aggregation-info.txt"])
-        if self._head.isfile(agginfo):
-            with self._head.open_text_file(agginfo) as fd:
-                content = fd.read()
-            bif = os.path.join(self._destdir, "bag-info.txt")
-            with io.open(bif, 'w', encoding=DEF_ENC) as fd:
-                fd.write(content)
-                    
         if not self._inplace:
             self._restore_from(self._head.path, skip)
         if members and members[0].name == self._head.name:
@@ -370,6 +362,16 @@ class BagRestorer(object):
         # now build the fetch.txt file if any found
         self.restore_fetch()
 
+        # this waits until all members are there so that a bag being restored in place remains a head
+        # bag until then
+        agginfo = "/".join([self._head.multibag_tag_dir, "aggregation-info.txt"])
+        if self._head.isfile(agginfo):
+            with self._head.open_text_file(agginfo) as fd:
+                content = fd.read()
+            bif = os.path.join(self._destdir, "bag-info.txt")
+            with io.open(bif, 'w', encoding=DEF_ENC) as fd:
+                fd.write(content)
+
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
             mbdir = os.path.normpath(os.path.join(self._destdir, self._head.multibag_tag_dir))
-- 
2.43.0


From fc58b91887eef1c40fcc8a555d626a19b2168f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:56 +0000
Subject: [PATCH 56/58] fix: validating a read-only bag with several processes
 always failed

---
 multibag/access/bagit.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 66f7652..8f38e3e 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -499,25 +499,15 @@ class ReadOnlyBag(_bagit.Bag):
         """
         errors = list()
 
-        if os.name == 'posix':
-            worker_init = posix_multiprocessing_worker_initializer
-        else:
-            worker_init = None
-
         args = ((self._root,
                  self.normalized_filesystem_names.get(rel_path, rel_path),
                  hashes,
                  self.algorithms) for rel_path, hashes in self.entries.items())
 
         try:
-            if processes == 1:
-                hash_results = [_calc_hashes(i) for i in args]
-            else:
-                try:
-                    pool = multiprocessing.Pool(processes if processes else None, initializer=worker_init)
-                    hash_results = pool.map(_calc_hashes, args)
-                finally:
-                    pool.terminate()
+            # Note that the filesystem instance underlying this bag can not be passed on to other
+            # processes, so the checksums are always calculated by this one
+            hash_results = [_calc_hashes(i) for i in args]
 
         # Any unhandled exceptions are probably fatal
         except:
-- 
2.43.0


From 74ee1bb9087a495b4120c0f42b09d3364c331628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:07 +0000
Subject: [PATCH 57/58] fix: bags with another tag file encoding than UTF-8
 were split into invalid bags

---
 multibag/split.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index f11cb28..569ef8d 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -2,7 +2,7 @@
 Tools for splitting a single bag (a ProgenitorBag) into a set of 
 Multibag-compliant bags.
 """
-import os, sys, re, shutil, io
+import os, sys, re, shutil, io, codecs
 from abc import ABCMeta, abstractmethod
 from collections import OrderedDict
 from copy import deepcopy
@@ -236,6 +236,8 @@ class SplitPlan(object):
         if not info_nopass:
             info_nopass = []
 
+        isdefenc = codecs.lookup(self.progenitor.encoding).name == codecs.lookup(DEF_ENC).name
+
         def _write_item(fd, key, vals):
             if not isinstance(vals, list):
                 vals = [vals]
@@ -291,7 +293,13 @@ class SplitPlan(object):
                 with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
                     pass
 
-            self.progenitor.replicate("bagit.txt", bagdir)
+            if isdefenc:
+                self.progenitor.replicate("bagit.txt", bagdir)
+            else:
+                # BagIt's tag files are not written with the encoding that the source bag uses
+                with io.open(os.path.join(bagdir, "bagit.txt"), 'w', encoding=DEF_ENC) as fd:
+                    _write_item(fd, "BagIt-Version", self.progenitor.version)
+                    _write_item(fd, "Tag-File-Character-Encoding", "UTF-8")
 
             payload_count = 0
             payload_size = 0
@@ -408,7 +416,8 @@ class SplitPlan(object):
                 if self.progenitor.isfile("bag-info.txt"):
                     with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
                                  'w', encoding=DEF_ENC) as fd:
-                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                        enc = isdefenc and 'utf-8-sig' or self.progenitor.encoding
+                        with self.progenitor.open_text_file("bag-info.txt", enc) as ifd:
                             for f in ifd:
                                 fd.write(f)
                 
-- 
2.43.0


From 189a9c18919615ac976ffddc8efb55375bf14a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:10 +0000
Subject: [PATCH 58/58] fix: restoring took older versions of files that are
 missing from a truncated member

---
 multibag/restore.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 1f4ae73..3a42e5f 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -9,7 +9,7 @@ from .access.bagit import Bag, ReadOnlyBag
 from .access.multibag import (is_headbag, as_headbag, open_headbag, MissingMultibagFileError,
                               HeadBag, ReadOnlyHeadBag, MultibagError, ExtendedReadWritableBag)
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
-from .access.bagit import BagError, _ext_fs_lookup, open_bag, Bag
+from .access.bagit import BagError, _ext_fs_lookup, open_bag, Bag, normalize_unicode
 
 class _FileNotFoundError(OSError):
     def __init__(self, message):
@@ -187,6 +187,16 @@ class BagRestorer(object):
         if not any([m.startswith("manifest-") for m in manfiles]):
             # e.g. what's left of a truncated tar file
             raise BagError("Member bag has no payload manifest: "+srcbag.name)
+        present = set([normalize_unicode(f) for f in srcbag.payload_files()])
+        missing = [f for f in srcbag.payload_entries() if normalize_unicode(f) not in present]
+        if missing and srcbag.isfile("fetch.txt"):
+            with srcbag.open_text_file("fetch.txt") as fd:
+                tofetch = [line.strip().split(None, 2)[-1] for line in fd if line.strip()]
+            missing = [f for f in missing if f not in tofetch]
+        if missing:
+            # older versions of these files, from other members, must not take their place
+            raise BagError("Member bag %s is missing files: %s" %
+                           (srcbag.name, ", ".join(sorted(missing))))
         for root, dirs, files in srcbag.walk():
             if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:
                 # if this root directory has been marked as deleted, skip it
-- 
2.43.0

