From 0563e691b3581345c12d9ae6711c5a7b096c9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 01/31] fix: install file sets atomically

A file set was extracted and described in place, next to the installed
ones, and the previous version was deleted before the new one was moved in.
A crash, an interrupt or a full disk at the wrong moment left half a file
set, an unreadable info file, a mixture of versions, or nothing at all.
Build it in a private directory, then rename.
---
 punx/cache_manager.py | 84 +++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1446758..4eb848c 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -68,6 +68,7 @@ import pathlib
 import pyRestTable
 import requests
 import shutil
+import tempfile
 
 from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
@@ -112,7 +113,8 @@ def write_json_file(filename, obj):
 
     :see: https://docs.python.org/3.5/library/json.html#json.dumps
     """
-    open(filename, "w").write(json.dumps(obj, indent=2))
+    with open(filename, "w") as f:
+        f.write(json.dumps(obj, indent=2))
 
 
 def read_json_file(filename):
@@ -198,43 +200,55 @@ def download_file_set(file_set_name, cache_path, replace=False):
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = cache_path / zip_content.filelist[0].filename.split("/")[0]
+    top_name = zip_content.filelist[0].filename.split("/")[0]
     allowed_parents = NXDL_categories  # directories
-    allowed_parents.append(download_path.name)
-
-    item_count = 0
-    dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
-    for item in zip_content.namelist():
-        if is_extractable(item, NXDL_file_endings_list, allowed_parents):
-            zip_content.extract(item, cache_path)
-            dt = max(zip_content.getinfo(item).date_time, dt)
-            item_count += 1
-            print(f"{item_count} Extracted: {item}")
-
-    if item_count < 2:
-        raise ValueError("no NXDL content downloaded")
-
-    ymd_hms = datetime.datetime(
-        *dt[:3], hour=dt[3], minute=dt[4], second=dt[5]
-    )
+    allowed_parents.append(top_name)
 
-    info = dict(
-        ref=file_set_name,
-        sha=zip_content.comment.decode("utf8"),
-        zip_url=url,
-        last_modified=ymd_hms.isoformat(sep=" "),
+    # Build the file set in a private directory (which is not a file set
+    # itself), so that an interrupted installation is never seen.
+    staging_path = pathlib.Path(
+        tempfile.mkdtemp(prefix=".install-", dir=cache_path)
     )
-    info["# description"] = "NXDL files downloaded from GitHub repository"
-    info["# written"] = str(datetime.datetime.now())
-    # TODO: move this code into the NXDL_File_Set class
-    infofile = download_path / INFO_FILE_NAME
-    write_json_file(infofile, info)
-    print(f"Created: {infofile}")
-
-    # last, rename the ``download_path`` directory to ``file_set_name``
-    if NXDL_refs_dir_name.exists():
-        shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
-    shutil.move(download_path, NXDL_refs_dir_name)
+    download_path = staging_path / "new" / top_name
+    previous_path = staging_path / "previous"
+    try:
+        item_count = 0
+        dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
+        for item in zip_content.namelist():
+            if is_extractable(item, NXDL_file_endings_list, allowed_parents):
+                zip_content.extract(item, download_path.parent)
+                dt = max(zip_content.getinfo(item).date_time, dt)
+                item_count += 1
+                print(f"{item_count} Extracted: {item}")
+
+        if item_count < 2:
+            raise ValueError("no NXDL content downloaded")
+
+        ymd_hms = datetime.datetime(
+            *dt[:3], hour=dt[3], minute=dt[4], second=dt[5]
+        )
+
+        info = dict(
+            ref=file_set_name,
+            sha=zip_content.comment.decode("utf8"),
+            zip_url=url,
+            last_modified=ymd_hms.isoformat(sep=" "),
+        )
+        info["# description"] = "NXDL files downloaded from GitHub repository"
+        info["# written"] = str(datetime.datetime.now())
+        # TODO: move this code into the NXDL_File_Set class
+        infofile = download_path / INFO_FILE_NAME
+        write_json_file(infofile, info)
+        print(f"Created: {infofile}")
+
+        # last, rename the ``download_path`` directory to ``file_set_name``
+        if NXDL_refs_dir_name.exists():
+            os.rename(NXDL_refs_dir_name, previous_path)
+        os.rename(download_path, NXDL_refs_dir_name)
+    finally:
+        if previous_path.exists() and not NXDL_refs_dir_name.exists():
+            os.rename(previous_path, NXDL_refs_dir_name)
+        shutil.rmtree(staging_path, ignore_errors=True)
     print(f"Installed in directory: {NXDL_refs_dir_name}")
 
 
-- 
2.43.0


From 3397e36095fb882029bf7953fb18a536acf4bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 02/31] fix: refuse file set names that are not a single
 directory name

'..', '.', '', 'a/b' (and archives whose top directory is called so) made
the installer delete, move or write directories outside the file set.
---
 punx/cache_manager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 4eb848c..cd86f23 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -140,6 +140,14 @@ def is_extractable(item, allowed_endings, allowed_parents):
     )
 
 
+def check_single_name(name):
+    """
+    Raise ValueError unless ``name`` names an item directly in a directory.
+    """
+    if name in ("", ".", "..") or "/" in name or os.path.basename(name) != name:
+        raise ValueError(f"not a valid file set name: '{name}'")
+
+
 def download_NeXus_zip_archive(url):
     """
     Download the NXDL definitions described by ``url``.
@@ -180,6 +188,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
         download_file_set(file_set_name, cache_path, replace=False)
 
     """
+    check_single_name(file_set_name)
     NXDL_refs_dir_name = cache_path / file_set_name
     print(f"Downloading file set: {file_set_name} to {NXDL_refs_dir_name} ...")
 
@@ -201,6 +210,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
     top_name = zip_content.filelist[0].filename.split("/")[0]
+    check_single_name(top_name)
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(top_name)
 
-- 
2.43.0


From 94fc6cc9e8f6d2ac409183c34dc17fa6629f76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 03/31] fix: a damaged file set in the user cache no longer
 disables punx

One unreadable or malformed info file made every command fail, even those
that would repair it.  Log and skip such a file set.
---
 punx/cache_manager.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index cd86f23..6e3b41b 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -445,8 +445,13 @@ class Base_Cache(object):
             if os.path.isdir(os.path.join(cache_path, item)):
                 info_file = os.path.join(cache_path, item, INFO_FILE_NAME)
                 if os.path.exists(info_file):
-                    fs[item] = NXDL_File_Set()
-                    fs[item].read_info_file(info_file)
+                    file_set = NXDL_File_Set()
+                    try:
+                        file_set.read_info_file(info_file)
+                    except (OSError, ValueError, RecursionError) as exc:
+                        logger.critical("ignoring file set %s: %s", item, exc)
+                        continue
+                    fs[item] = file_set
         return fs
 
     def cleanup(self):
@@ -551,5 +556,10 @@ class NXDL_File_Set(object):
 
         # read the NXDL file set's info file for GitHub information
         obj = read_json_file(file_name)
+        if not isinstance(obj, dict):
+            raise ValueError(f"unexpected content in info file: {file_name}")
+        for k in "ref sha last_modified".split():
+            if not isinstance(obj.get(k), str):
+                raise ValueError(f"no valid '{k}' in info file: {file_name}")
         for k in self.json_file_keys:
             self.__setattr__(k, obj.get(k))
-- 
2.43.0


From 07e4a1c943569d85fd9c03e0d970e143a2a5a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 04/31] fix: retry a failed download, and do not wait for the
 server forever

The retry loop raised in its first round, and the request had no timeout.
---
 punx/cache_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 6e3b41b..e904347 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -91,6 +91,7 @@ SHORT_SHA_LENGTH = 7
 SOURCE_CACHE_SETTINGS_FILENAME = "punx.ini"
 SOURCE_CACHE_SUBDIR = "cache"
 GITHUB_RETRY_COUNT = 3
+GITHUB_TIMEOUT = 60  # seconds without any response from the server
 URL_BASE = (
     "https://github.com/"
     f"{GITHUB_NXDL_ORGANIZATION}/{GITHUB_NXDL_REPOSITORY}"
@@ -163,10 +164,13 @@ def download_NeXus_zip_archive(url):
     for _retry in range(GITHUB_RETRY_COUNT):  # noqa
         try:
             print(f"Requesting download from {url}")
-            archive = requests.get(url, verify=False)
+            archive = requests.get(url, verify=False, timeout=GITHUB_TIMEOUT)
             return zipfile.ZipFile(io.BytesIO(archive.content))
-        except requests.exceptions.ConnectionError as _exc:
-            raise IOError(f"ConnectionError from {url}\n{_exc}")
+        except (
+            requests.exceptions.ConnectionError, requests.exceptions.Timeout
+        ) as _exc:
+            problem = _exc
+    raise IOError(f"ConnectionError from {url}\n{problem}")
 
 
 def download_file_set(file_set_name, cache_path, replace=False):
-- 
2.43.0


From 7d9fda8f466dae5aa9ddef7336a2d8f2546e4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 05/31] fix: choose and report the default file set
 consistently

'punx install' reported the default from before the installation, and a
tie between equally dated file sets was broken by directory order.
---
 punx/cache_manager.py | 3 ++-
 punx/main.py          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index e904347..e45edb5 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -335,7 +335,8 @@ class CacheManager(singletons.Singleton):
         logger.debug(" given ref: " + str(ref))
 
         def sorter(value):
-            return self.NXDL_file_sets[value].last_modified
+            # name breaks a tie, listing order is arbitrary
+            return self.NXDL_file_sets[value].last_modified, value
 
         file_set_keys = sorted(self.NXDL_file_sets, key=sorter, reverse=True)
 
diff --git a/punx/main.py b/punx/main.py
index a6c069a..70984ad 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -259,6 +259,7 @@ def func_install(args):
         )
 
     print(cm.table_of_caches())
+    cm.select_NXDL_file_set()  # may have changed
     print(f"default file set: {cm.default_file_set.ref}")
 
 
-- 
2.43.0


From 0c5aebba061c89333fc993d1dba951e5db9f3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 06/31] fix: label each file set with the cache it was found in

The label was guessed from the path: any user cache below a directory
.../punx/cache was listed as 'source'.
---
 punx/cache_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index e45edb5..e028fa8 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -421,6 +421,7 @@ class Base_Cache(object):
     """
 
     qsettings = None
+    label = None
     is_temporary_directory = False
 
     @property
@@ -456,6 +457,7 @@ class Base_Cache(object):
                     except (OSError, ValueError, RecursionError) as exc:
                         logger.critical("ignoring file set %s: %s", item, exc)
                         continue
+                    file_set.cache = self.label
                     fs[item] = file_set
         return fs
 
@@ -470,6 +472,8 @@ class SourceCache(Base_Cache):
 
     """manage the source directory cache of NXDL files"""
 
+    label = "source"
+
     def __init__(self):
         path = pathlib.Path(__file__).parent.absolute()
         ini_file = path / SOURCE_CACHE_SUBDIR / SOURCE_CACHE_SETTINGS_FILENAME
@@ -481,6 +485,8 @@ class UserCache(Base_Cache):
 
     """manage the user directory cache of NXDL files"""
 
+    label = "user"
+
     def __init__(self):
         self.qsettings = QtCore.QSettings(
             QtCore.QSettings.IniFormat,
-- 
2.43.0


From f03b3e885a8f092ca9be44c446b36e03a098c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 07/31] fix: refuse a download that lost its end

The zip file module accepts an archive that is cut in its trailing comment,
so a part of the commit hash was recorded as the identity of the file set.
---
 punx/cache_manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index e028fa8..b6fabe5 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -66,6 +66,7 @@ import json
 import os
 import pathlib
 import pyRestTable
+import re
 import requests
 import shutil
 import tempfile
@@ -213,6 +214,11 @@ def download_file_set(file_set_name, cache_path, replace=False):
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
+    # GitHub ends the archive with the full commit hash
+    sha = zip_content.comment.decode("utf8")
+    if re.fullmatch("[0-9a-f]{40}", sha) is None:
+        raise ValueError(f"incomplete download from {url}")
+
     top_name = zip_content.filelist[0].filename.split("/")[0]
     check_single_name(top_name)
     allowed_parents = NXDL_categories  # directories
@@ -244,7 +250,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
 
         info = dict(
             ref=file_set_name,
-            sha=zip_content.comment.decode("utf8"),
+            sha=sha,
             zip_url=url,
             last_modified=ymd_hms.isoformat(sep=" "),
         )
-- 
2.43.0


From 8c8b35732b1160434f01e29da96063c07c095ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:17 +0000
Subject: [PATCH 08/31] fix: look up a file set without exposing a half-built
 list

all_file_sets assigned the (shared) dictionary before it was complete;
another thread could see it empty.  find_NXDL_file_set() looks up a file set
without changing the default.
---
 punx/cache_manager.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index b6fabe5..3019fe9 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -336,15 +336,29 @@ class CacheManager(singletons.Singleton):
 
         Raise KeyError exception if unknown.
 
+        :return obj:
+        """
+        self.default_file_set = self.find_NXDL_file_set(ref)
+        # print(f"{ref=}  {self.default_file_set=}")
+        logger.debug(" default file set: " + str(self.default_file_set))
+        return self.default_file_set
+
+    def find_NXDL_file_set(self, ref=None):
+        """
+        Return the named file set (the latest one, if unknown).
+
+        Does not change ``self.default_file_set``.
+
         :return obj:
         """
         logger.debug(" given ref: " + str(ref))
+        file_sets = self.NXDL_file_sets
 
         def sorter(value):
             # name breaks a tie, listing order is arbitrary
-            return self.NXDL_file_sets[value].last_modified, value
+            return file_sets[value].last_modified, value
 
-        file_set_keys = sorted(self.NXDL_file_sets, key=sorter, reverse=True)
+        file_set_keys = sorted(file_sets, key=sorter, reverse=True)
 
         if ref not in file_set_keys:
             choice = file_set_keys[0]
@@ -354,10 +368,7 @@ class CacheManager(singletons.Singleton):
             )
             ref = choice  # the latest one
         logger.debug(" final ref: " + str(ref))
-        self.default_file_set = self.NXDL_file_sets[ref]
-        # print(f"{ref=}  {self.default_file_set=}")
-        logger.debug(" default file set: " + str(self.default_file_set))
-        return self.default_file_set
+        return file_sets[ref]
 
     # - - - - - - - - - - - - - -
     # private
@@ -365,9 +376,10 @@ class CacheManager(singletons.Singleton):
     @property
     def all_file_sets(self):
         """return dictionary of all NXDL file sets in both source & user caches"""
-        self.NXDL_file_sets = {}
+        file_sets = {}
         for cache in "source user".split():
-            self.NXDL_file_sets.update(getattr(self, cache).all_file_sets)
+            file_sets.update(getattr(self, cache).all_file_sets)
+        self.NXDL_file_sets = file_sets
         logger.debug(
             "all known file set names: %s",
             sorted(list(self.NXDL_file_sets.keys()))
-- 
2.43.0


From 1b0f0f22b9986b29424b5fc353b8bea3998e524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:17 +0000
Subject: [PATCH 09/31] fix: reading one file set no longer influences another

NXDL_Manager('name') changed the default file set of the process, and every
NXDL file was checked with the schema of the default file set instead of the
schema in its own file set.
---
 punx/nxdl_manager.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fed1769..9944c92 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -78,8 +78,7 @@ class NXDL_Manager(object):
             file_set = cm.default_file_set
         elif isinstance(file_set, str):
             cm = cache_manager.CacheManager()
-            cm.select_NXDL_file_set(file_set)
-            file_set = cm.default_file_set
+            file_set = cm.find_NXDL_file_set(file_set)
         assert isinstance(file_set, cache_manager.NXDL_File_Set)
 
         if file_set.path is None or not os.path.exists(file_set.path):
@@ -158,15 +157,17 @@ def get_NXDL_file_list(nxdl_dir):
     return nxdl_file_list
 
 
-def validate_xml_tree(xml_tree):
+def validate_xml_tree(xml_tree, schema=None):
     """
     Validate an NXDL XML file against its NeXus NXDL XML Schema file.
 
     :param str xml_file_name: name of XML file
+    :param obj schema: XML Schema (default: that of the default file set)
     """
     from . import schema_manager
 
-    schema = schema_manager.get_default_schema_manager().lxml_schema
+    if schema is None:
+        schema = schema_manager.get_default_schema_manager().lxml_schema
     try:
         result = schema.assertValid(xml_tree)
     except lxml.etree.DocumentInvalid as exc:
@@ -440,7 +441,10 @@ class NXDL__definition(NXDL__base):  # lgtm [py/missing-call-to-init]
         lxml_tree = lxml.etree.parse(self.file_name)
 
         try:
-            validate_xml_tree(lxml_tree)
+            validate_xml_tree(
+                lxml_tree,
+                self.nxdl_manager.nxdl_file_set.schema_manager.lxml_schema
+            )
         except InvalidNxdlFile as exc:
             msg = "NXDL file is not valid: " + self.file_name
             msg += "\n" + str(exc)
-- 
2.43.0


From 1f349e323c765b020eb75517dab6fa89550f9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 10/31] fix: never load a mixture of two versions of a file set

A file set that another process replaces while it is read could be loaded
with definitions from both versions.  Compare its description before and
after reading.
---
 punx/cache_manager.py | 15 +++++++++++++++
 punx/nxdl_manager.py  | 13 +++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 3019fe9..d05227c 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -532,6 +532,8 @@ class NXDL_File_Set(object):
     zip_url = None
     last_modified = None
 
+    info_content = None
+
     # these keys are written and read to the JSON info files in each downloaded file set
     json_file_keys = "ref sha zip_url last_modified".split()
 
@@ -592,3 +594,16 @@ class NXDL_File_Set(object):
                 raise ValueError(f"no valid '{k}' in info file: {file_name}")
         for k in self.json_file_keys:
             self.__setattr__(k, obj.get(k))
+        self.info_content = obj
+
+    def is_current(self):
+        """
+        Is this still the content of the info file?
+        (``False`` once the file set was replaced or removed)
+        """
+        if self.info is None:
+            return True  # not described by an info file
+        try:
+            return read_json_file(self.info) == self.info_content
+        except (FileNotFoundError, ValueError):
+            return False
diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 9944c92..62db998 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -86,6 +86,14 @@ class NXDL_Manager(object):
             logger.error(msg)
             raise FileNotFound(msg)
 
+        if not file_set.is_current():
+            # replaced since it was indexed: read its new description
+            cache = file_set.cache
+            info_file = file_set.info
+            file_set = cache_manager.NXDL_File_Set()
+            file_set.read_info_file(info_file)
+            file_set.cache = cache
+
         self.nxdl_file_set = file_set
         self.nxdl_defaults = self.get_nxdl_defaults()
         self.classes = collections.OrderedDict()
@@ -106,6 +114,11 @@ class NXDL_Manager(object):
                 logger.debug("symbol: " + v)
             logger.debug("-" * 50)
 
+        if not file_set.is_current():
+            msg = "file set changed while reading it: " + str(file_set.path)
+            logger.error(msg)
+            raise IOError(msg)
+
     def __str__(self, *args, **kwargs):
         s = "NXDL_Manager("
         count = {}
-- 
2.43.0


From d08daf4ce08d4eba933d61db959f2a6391fd662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 11/31] fix: each XML Schema is parsed on its own

What was read from one nxdl.xsd remained in class attributes and changed the
parsing of the next one.
---
 punx/schema_manager.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 58dc20f..a2cbc0f 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -45,8 +45,8 @@ from __future__ import print_function
 
 import lxml.etree
 import os
+import threading
 from . import NAMESPACE_DICT, FileNotFound, InvalidNxdlFile
-from . import singletons
 from . import utils
 
 
@@ -349,8 +349,6 @@ class Schema_Root(_Mixin):
     :param obj schema_root: optional, instance of lxml.etree._Element
     """
 
-    attrs = {}
-    children = {}
     patterns = None
     type = None
     units = None
@@ -371,6 +369,9 @@ class Schema_Root(_Mixin):
             schema_root=schema_root,
         )
 
+        self.attrs = {}
+        self.children = {}
+        _GroupParsing.local.started = False
         self.schema_manager = schema_manager
         element_type = element_node.attrib.get("type")
         if element_type is None:
@@ -511,12 +512,12 @@ class Schema_Element(_Mixin):
                 xml_obj.attrib["name"] == "group"
                 and xml_obj.attrib["type"] == "nx:groupType"
             ):
-                if _GroupParsing().started:
+                if getattr(_GroupParsing.local, "started", False):
                     ok_to_parse = False
                     # needs a special code to apply this rule
                     #     isinstance(obj, _Recursion)
                     self.children["group"] = _Recursion("group")
-                _GroupParsing().started = True
+                _GroupParsing.local.started = True
             if ok_to_parse:
                 type_obj = Schema_Type(ref, schema_root=self.lxml_root)
                 type_obj.copy_to(self)
@@ -581,13 +582,13 @@ class Schema_Type(_Mixin):  # lgtm [py/missing-call-to-init]
                 raise_error(subnode, "unexpected tag=", subnode.tag)
 
 
-class _GroupParsing(singletons.Singleton):
+class _GroupParsing(object):
 
     """
     internal: avoid a known recursion of group in a group
     """
 
-    started = False
+    local = threading.local()  # .started: reset for each XML Schema
 
 
 class _Recursion(_Mixin):
-- 
2.43.0


From dedd41107dcf5c1124286db219118e0fbf4f160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:58 +0000
Subject: [PATCH 12/31] fix: a verdict does not depend on files validated
 before

---
 punx/validate.py                                   | 1 +
 punx/validations/base_class_items_in_hdf5_group.py | 1 +
 punx/validations/default_plot.py                   | 7 ++-----
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index a9de31f..cb74ca1 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -105,6 +105,7 @@ class Data_File_Validator(object):
         )  # dictionary of all HDF5 address nodes in the data file
         self.classpaths = {}
         self.regexp_cache = {}
+        self.min_occurs = {}  # of the groups of the base classes used in the file
 
     def close(self):
         """
diff --git a/punx/validations/base_class_items_in_hdf5_group.py b/punx/validations/base_class_items_in_hdf5_group.py
index 221e0c9..46af3fd 100644
--- a/punx/validations/base_class_items_in_hdf5_group.py
+++ b/punx/validations/base_class_items_in_hdf5_group.py
@@ -53,6 +53,7 @@ def verify(validator, v_item, base_class):
             minOccurs = 1
         minOccurs = int(group_object.attributes.get("minOccurs", minOccurs))
         group_object.minOccurs = minOccurs
+        validator.min_occurs[(base_class.title, group_name)] = minOccurs
         # ---------------------------------------------------------
         # FIXME: report if required item is present, name could be flexible
 
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 3fc38a8..27af83b 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -36,11 +36,8 @@ def verify(validator):
             break  # no need to look further
     if status is None:
         c = "no default plot described"
-        data_group = validator.manager.classes["NXentry"].groups["data"]
-        if hasattr(data_group, "minOccurs"):
-            minOccurs = data_group.minOccurs
-        else:
-            minOccurs = 1
+        # only as noted for this file: others may have been validated before
+        minOccurs = validator.min_occurs.get(("NXentry", "data"), 1)
         if minOccurs > 0:
             status = finding.ERROR
         else:
-- 
2.43.0


From 04a00cef01221dfc99f3d933c4a0b1cf845ef22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:13 +0000
Subject: [PATCH 13/31] fix: text of a file is decoded the same on every
 console

---
 punx/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 319fd0a..45a1f35 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,7 +30,6 @@ import h5py
 import logging
 import os
 import numpy
-import sys
 
 
 def decode_byte_string(value):
@@ -44,15 +43,25 @@ def decode_byte_string(value):
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
-            return value.astype('U').tolist()
+            return _decode_items(value.tolist())
         else:
             return None
     elif isinstance(value, (bytes, numpy.bytes_)):
-        return value.decode(sys.stdout.encoding or "utf8")
+        # HDF5 strings are ASCII or UTF-8, whatever the console can show
+        return value.decode("utf8", errors="replace")
     else:
         return value
 
 
+def _decode_items(value):
+    """str of every item in (nested) list: value"""
+    if isinstance(value, list):
+        return [_decode_items(v) for v in value]
+    if isinstance(value, bytes):
+        return value.decode("utf8", errors="replace")
+    return str(value)
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
-- 
2.43.0


From 56f6f6338c802a5d1ffd31bc9575fd5c86e174b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:51 +0000
Subject: [PATCH 14/31] fix: dangling, circular and external links do not abort
 validate or tree

---
 punx/h5tree.py                                | 35 ++++++--------
 punx/utils.py                                 | 40 ++++++++++++++++
 punx/validate.py                              | 47 ++++++++++++++-----
 punx/validations/default_plot.py              | 21 +++------
 .../hdf5_group_items_in_base_class.py         |  7 ++-
 5 files changed, 101 insertions(+), 49 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index e0c0b12..a7cb62d 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -87,7 +87,7 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None):
+    def _renderGroup(self, obj, name, indentation="  ", md=None, ancestors=()):
         """return a [formatted_string] with the contents of the group
 
         Parameters
@@ -99,8 +99,11 @@ class Hdf5TreeView(object):
             If group was an ExternalLink, then keys ``filename`` and ``path``
             describe the external link point.  If not ExternalLink, the dictionary
             contents will not be used.
+        ancestors : tuple
+            the groups that contain this one
         """
         s = []
+        ancestors = ancestors + (obj["/"] if utils.isHdf5FileObject(obj) else obj,)
         nxclass = obj.attrs.get("NX_class", "")
         if len(nxclass) > 0:
             if isinstance(
@@ -119,24 +122,14 @@ class Hdf5TreeView(object):
         groups = []
         for itemname in sorted(obj):
             link_info = obj.get(itemname, getlink=True)
-            # prevent fails of obj.get(itemname, getclass=True)
-            # for external links if file is not available
-            if (
-                isinstance(link_info, h5py.ExternalLink)
-                and not os.path.exists(link_info.filename)
-            ):
-                classref = None
-                logger.debug(
-                    "FileNotFound: external file=%s  external HDF5 addr=%s",
-                    link_info.filename, link_info.path
-                )
-            elif isinstance(link_info, h5py.SoftLink):
-                classref = None
+            if isinstance(link_info, h5py.SoftLink):
+                value = None
                 logger.debug("SoftLink: HDF5 addr=%s", link_info.path)
             else:
-                classref = obj.get(itemname, getclass=True)
+                # None for external links if file (or its content) is not available
+                value = utils.get_child(obj, itemname)
 
-            if classref is None:
+            if value is None:
                 if isinstance(link_info, h5py.SoftLink):
                     s += ["%s  %s: --> %s" % (indentation, itemname, link_info.path)]
                 else:
@@ -147,11 +140,13 @@ class Hdf5TreeView(object):
                             if v is not None:
                                 s += [self._renderSingleAttribute(indentation + "  ", nm, v)]
             else:
-                value = obj.get(itemname)
                 if utils.isNeXusLink(value):
                     s += self._renderLinkedObject(value, itemname, indentation + "  ")
                 elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
-                    groups.append((value, itemname, link_info))
+                    if value in ancestors:  # do not go round in circles
+                        s += ["%s  %s: --> %s" % (indentation, itemname, value.name)]
+                    else:
+                        groups.append((value, itemname, link_info))
                 elif utils.isHdf5Dataset(value):
                     s += self._renderDataset(value, itemname, indentation + "  ")
                     if self.show_attributes and utils.isHdf5ExternalLink(
@@ -164,13 +159,13 @@ class Hdf5TreeView(object):
                     msg = (
                         "unidentified %s: %s, %s",
                         itemname,
-                        repr(classref),
+                        repr(value),
                         repr(link_info),
                     )
                     raise Exception(msg)
 
         for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md)
+            g = self._renderGroup(value, itemname, indentation + "  ", md, ancestors)
             s += g
 
         return s
diff --git a/punx/utils.py b/punx/utils.py
index 45a1f35..b4fbf69 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -13,6 +13,7 @@ utility routines
 .. autosummary::
 
    ~decode_byte_string
+   ~get_child
    ~isHdf5FileObject
    ~isHdf5Group
    ~isHdf5Dataset
@@ -69,6 +70,45 @@ def string_list_to_hdf5(string_list):
     return [v.encode("utf8") for v in string_list]
 
 
+def get_child(group, name):
+    """
+    Return the object ``group[name]``, None if there is no such object.
+
+    A link might be dangling, circular, or lead into a file that is not
+    available: then, there is no object.  A problem with reading the file
+    itself is raised (``group.get(name)`` would hide it).
+    """
+    if not isinstance(name, str) or not name:
+        return None
+    # Follow the path one name at a time.
+    obj = group.file["/"] if name.startswith("/") else group
+    names = name.split("/")
+    links_left = 16  # as many as HDF5 follows
+    while names:
+        part = names.pop(0)
+        if part in ("", "."):
+            continue
+        if not isinstance(obj, h5py.Group) or part not in obj:
+            return None
+        link = obj.get(part, getlink=True)
+        if not isinstance(link, h5py.HardLink):
+            links_left -= 1
+            if links_left < 0:
+                return None
+        if isinstance(link, h5py.SoftLink):
+            names = link.path.split("/") + names
+            if link.path.startswith("/"):
+                obj = obj.file["/"]
+        elif isinstance(link, h5py.ExternalLink):
+            try:
+                obj = obj[part]
+            except (KeyError, OSError, RuntimeError):
+                return None
+        else:
+            obj = obj[part]
+    return group[name]
+
+
 def isHdf5FileObject(obj):
     """Is `obj` an HDF5 File?"""
     return isinstance(obj, h5py.File)
diff --git a/punx/validate.py b/punx/validate.py
index cb74ca1..572bf49 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -268,7 +268,7 @@ class Data_File_Validator(object):
         """
         self._group_address_catalog_(None, self.h5)
 
-    def _group_address_catalog_(self, parent, group):
+    def _group_address_catalog_(self, parent, group, name=None):
         """
         catalog this group's address and all its contents
         """
@@ -279,8 +279,8 @@ class Data_File_Validator(object):
             self.classpaths[v.classpath].append(v)
             logger.log(INFORMATIVE, "NeXus classpath: " + v.classpath)
 
-        def get_subject(parent, o):
-            v = ValidationItem(parent, o)
+        def get_subject(parent, o, name=None):
+            v = ValidationItem(parent, o, link_name=name)
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
@@ -290,13 +290,29 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
-        obj = get_subject(parent, group)
-        parent = self.classpaths[obj.classpath][-1]
+        def record_link_finding(v, name, comment):
+            address = f"{v.h5_address.rstrip(SLASH)}{SLASH}{name}"
+            f = finding.Finding(address, "link", finding.WARN, comment)
+            self.validations.append(f)
+
+        def is_ancestor(v, o):
+            while v is not None:
+                if v.h5_object[SLASH if v.parent is None else "."] == o:
+                    return True
+                v = v.parent
+            return False
+
+        parent = get_subject(parent, group, name)
         for item in group:
-            if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item])
+            child = utils.get_child(group, item)
+            if child is None:
+                record_link_finding(parent, item, "target of link not found")
+            elif not isinstance(child, h5py.Group):
+                get_subject(parent, child, item)
+            elif is_ancestor(parent, child):
+                record_link_finding(parent, item, "link to a group that contains it")
             else:
-                get_subject(parent, group[item])
+                self._group_address_catalog_(parent, child, item)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -395,17 +411,22 @@ class ValidationItem(object):
 
     """HDF5 data file object for validation"""
 
-    def __init__(self, parent, obj, attribute_name=None):
+    def __init__(self, parent, obj, attribute_name=None, link_name=None):
         assert isinstance(parent, (ValidationItem, type(None)))
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
         if hasattr(obj, "name"):
-            self.h5_address = obj.name
-            if obj.name == SLASH:
-                self.name = SLASH
+            if link_name is not None:
+                # obj.name, unless obj is found in some other file
+                self.h5_address = f"{parent.h5_address.rstrip(SLASH)}{SLASH}{link_name}"
+                self.name = link_name
             else:
-                self.name = obj.name.split(SLASH)[-1]
+                self.h5_address = obj.name
+                if obj.name == SLASH:
+                    self.name = SLASH
+                else:
+                    self.name = obj.name.split(SLASH)[-1]
             self.classpath = self.determine_NeXus_classpath()
         else:
             self.name = attribute_name
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 27af83b..05dbc16 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -59,25 +59,19 @@ def default_plot_v3(validator):
     # Assume the attribute values are tested elsewhere
     def build_h5_address(v_item, pointer):
         "create the HDF5 address"
-        if isinstance(v_item.h5_object, str):
-            parent = v_item.parent or v_item
-            addr = parent.h5_object.name
-        else:
-            addr = v_item.h5_object.name
+        addr = v_item.h5_address
         if not addr.endswith("/"):
             addr += "/"
-        addr += utils.decode_byte_string(pointer)
+        addr += str(utils.decode_byte_string(pointer))
         return addr
 
     def attribute_points_at_target(v_item, attribute_name, v_target):
         "test if attribute value actually points at target"
-        pointer = v_item.h5_object.attrs.get(attribute_name)
-        if pointer is None:
+        if attribute_name not in v_item.h5_object.attrs:
             return False
+        pointer = v_item.h5_object.attrs[attribute_name]
         addr = build_h5_address(v_item, pointer)
-        if addr not in v_item.h5_object:
-            return False
-        return v_target == addr
+        return addr in validator.addresses and v_target == addr
 
     test_name = "NeXus default plot v3"
     short_list = list(validator.classpaths.get("/NXentry/NXdata@signal", []))
@@ -87,9 +81,8 @@ def default_plot_v3(validator):
     niac2014_path = []
     for v_item in short_list:
         # check existence of @default attributes, as well
-        _root, entry, data = v_item.h5_address.split("@")[0].split("/")  # noqa
-        nxdata = validator.addresses["/" + entry + "/" + data]
-        nxentry = validator.addresses["/" + entry]
+        nxdata = v_item.parent
+        nxentry = nxdata.parent
         nxroot = validator.addresses["/"]
         signal_h5_addr = build_h5_address(nxdata, nxdata.h5_object.attrs["signal"])
         t1 = attribute_points_at_target(nxroot, "default", nxentry.h5_address)
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b98be6f..c8bfc27 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -119,8 +119,11 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
-        obj = v_item.h5_object[child_name]
-        v_sub_item = validator.addresses[obj.name]
+        address = f"{v_item.h5_address.rstrip('/')}/{child_name}"
+        v_sub_item = validator.addresses.get(address)
+        if v_sub_item is None:
+            continue  # a link that leads nowhere, already reported
+        obj = v_sub_item.h5_object
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
-- 
2.43.0


From 64341287e7cc756fd917eb4ff7fe5e31843783e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:18 +0000
Subject: [PATCH 15/31] fix: unusual types of attributes and fields do not
 abort validate or tree

---
 punx/h5tree.py                                | 41 +++++++++++--------
 punx/utils.py                                 | 13 +++---
 punx/validate.py                              |  7 ++--
 punx/validations/application_definition.py    | 28 +++++++++----
 punx/validations/attribute.py                 | 24 ++++++-----
 .../hdf5_group_items_in_base_class.py         | 12 +++---
 punx/validations/item_name.py                 | 14 ++++---
 7 files changed, 84 insertions(+), 55 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index a7cb62d..894f862 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -104,13 +104,17 @@ class Hdf5TreeView(object):
         """
         s = []
         ancestors = ancestors + (obj["/"] if utils.isHdf5FileObject(obj) else obj,)
-        nxclass = obj.attrs.get("NX_class", "")
-        if len(nxclass) > 0:
-            if isinstance(
-                nxclass, numpy.ndarray
-            ):  # attribute reported as DATATYPE SIMPLE
+        nxclass = ""
+        if "NX_class" in obj.attrs:
+            nxclass = obj.attrs["NX_class"]
+            if isinstance(nxclass, numpy.ndarray) and nxclass.size > 0:
+                # attribute reported as DATATYPE SIMPLE
                 nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
-            nxclass = ":" + utils.decode_byte_string(nxclass)
+            nxclass = utils.decode_byte_string(nxclass)
+            if not isinstance(nxclass, str):
+                nxclass = ""
+        if len(nxclass) > 0:
+            nxclass = ":" + nxclass
         s += [indentation + name + nxclass]
         extra_attrs = {}
         if isinstance(md, h5py.ExternalLink):
@@ -144,7 +148,8 @@ class Hdf5TreeView(object):
                     s += self._renderLinkedObject(value, itemname, indentation + "  ")
                 elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
                     if value in ancestors:  # do not go round in circles
-                        s += ["%s  %s: --> %s" % (indentation, itemname, value.name)]
+                        addr = ancestors[ancestors.index(value)].name
+                        s += ["%s  %s: --> %s" % (indentation, itemname, addr)]
                     else:
                         groups.append((value, itemname, link_info))
                 elif utils.isHdf5Dataset(value):
@@ -155,6 +160,9 @@ class Hdf5TreeView(object):
                         # When "classref" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
+                elif isinstance(value, h5py.Datatype):
+                    s += ["%s  %s:named datatype" % (indentation, itemname)]
+                    s += self._renderAttributes(value, indentation + "  ")
                 else:
                     msg = (
                         "unidentified %s: %s, %s",
@@ -173,7 +181,7 @@ class Hdf5TreeView(object):
     def _renderSingleAttribute(self, indentation, name, value):
         value = utils.decode_byte_string(value)
         # Wrap str and list of str in double quotes.
-        if isinstance(value, list) and isinstance(value[0], str):
+        if isinstance(value, list) and all(isinstance(v, str) for v in value):
             value = '["' + '", "'.join(value) + '"]'
         elif isinstance(value, str):
             value = f'"{value}"'
@@ -202,16 +210,17 @@ class Hdf5TreeView(object):
         shape = dset.shape
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if self.isNeXus:
-            if "target" in dset.attrs:
-                target_addr = utils.decode_byte_string(dset.attrs["target"])
-                if target_addr != dset.name:
-                    return self._renderLinkedObject(dset, name, indentation)
+            if utils.isNeXusLink(dset):
+                return self._renderLinkedObject(dset, name, indentation)
         txType = self._renderDsType(dset)
         txShape = self._renderDsShape(dset)
         s = []
-        if dset.dtype.kind == "S":
+        if shape is None:  # no data at all, not even an empty array
+            s += ["%s%s:%s = None" % (indentation, name, txType)]
+            s += self._renderAttributes(dset, indentation)
+        elif dset.dtype.kind == "S":
             if isinstance(dset[()], numpy.ndarray):
-                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()]]
+                ss = [f'"{utils.decode_byte_string(ss)}"' for ss in dset[()]]
                 if len(ss) > 1:
                     value = " = [%s]" % ", ".join(ss)
                 else:
@@ -264,7 +273,7 @@ class Hdf5TreeView(object):
         t = str(obj.dtype)
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if obj.dtype.kind == "S":  # fixed-length string
-            if len(obj.shape):
+            if obj.shape:
                 t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj])
             else:
                 t = "CHAR"
@@ -276,7 +285,7 @@ class Hdf5TreeView(object):
 
     def _renderDsShape(self, obj):
         """return the shape of the HDF5 dataset"""
-        s = obj.shape
+        s = obj.shape or ()
         l = []
         for dim in s:
             l.append(str(dim))
diff --git a/punx/utils.py b/punx/utils.py
index b4fbf69..221c1c4 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -178,11 +178,12 @@ def isNeXusGroup(obj, NXtype):
     """Is `obj` a NeXus group?"""
     nxclass = None
     if isHdf5Group(obj):
-        nxclass = obj.attrs.get("NX_class", None)
-        if isinstance(nxclass, numpy.ndarray):
+        if "NX_class" in obj.attrs:
+            nxclass = obj.attrs["NX_class"]
+        if isinstance(nxclass, numpy.ndarray) and nxclass.size > 0:
             nxclass = nxclass[0]
         nxclass = decode_byte_string(nxclass)
-    return nxclass == str(NXtype)
+    return isinstance(nxclass, str) and nxclass == str(NXtype)
 
 
 def isNeXusDataset(obj):
@@ -192,8 +193,10 @@ def isNeXusDataset(obj):
 
 def isNeXusLink(obj):
     """Is `obj` linked to another NeXus item?"""
-    target = decode_byte_string(obj.attrs.get("target", ""))
-    return len(target) > 0 and target != obj.name
+    if "target" not in obj.attrs:
+        return False
+    target = decode_byte_string(obj.attrs["target"])
+    return isinstance(target, str) and len(target) > 0 and target != obj.name
 
 
 def setup_logger(log_name, level=None):
diff --git a/punx/validate.py b/punx/validate.py
index 572bf49..852ceba 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -400,7 +400,7 @@ class Data_File_Validator(object):
             and len(nxdl_def.links) == 0
             and len(nxdl_def.groups) == 1
         ):  # maybe ...
-            entry_group = nxdl_def.groups.values()[0]
+            entry_group = list(nxdl_def.groups.values())[0]
             # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
             # assume OK
             return "definition" not in entry_group.fields
@@ -503,8 +503,9 @@ class ValidationItem(object):
             if not classpath.endswith(SLASH):
 
                 if utils.isHdf5Group(h5_obj):
-                    nx_class = utils.decode_byte_string(
-                        h5_obj.attrs.get("NX_class"))
+                    nx_class = None
+                    if "NX_class" in h5_obj.attrs:
+                        nx_class = utils.decode_byte_string(h5_obj.attrs["NX_class"])
 
                     if isinstance(nx_class, str) and nx_class.startswith("NX"):
                         self.nx_class = nx_class  # only for groups
diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 171c76d..c5f5a5f 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -15,14 +15,23 @@ from .. import utils
 from ..validate import ValidationItem
 
 
+def first_value(h5_obj):
+    """
+    Return the (first) value of the dataset, None if there is none
+    """
+    if not utils.isHdf5Dataset(h5_obj):
+        return None
+    value = h5_obj[()]
+    if isinstance(value, (list, tuple, numpy.ndarray)):
+        value = value[0] if len(value) > 0 else None
+    return utils.decode_byte_string(value)
+
+
 def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    item = v_item.h5_object["definition"][()]
-    if isinstance(item, (list, tuple, numpy.ndarray)):
-        item = item[0]
-    ad_name = str(utils.decode_byte_string(item))
+    ad_name = str(first_value(v_item.h5_object["definition"]))
     key = "NeXus application definition"
 
     ad = validator.manager.classes.get(ad_name)
@@ -45,6 +54,9 @@ def verify(validator, v_item):
     c = ad_name + ": more validations needed"
     validator.record_finding(v_item, key, finding.TODO, c)
 
+    if len(ad.groups) == 0:
+        return  # such as some base class
+
     # TODO: groups, attributes, links, type, ... in separate functions
     ad_entry = list(ad.groups.values())[
         0
@@ -52,7 +64,7 @@ def verify(validator, v_item):
     for field, spec in ad_entry.fields.items():
 
         msg = "%s:%s" % (ad_name, field)
-        h5_obj = v_item.h5_object.get(field)
+        h5_obj = utils.get_child(v_item.h5_object, field)
         status = finding.TF_RESULT[h5_obj is not None]
         if h5_obj is None:
             msg += " not"
@@ -62,11 +74,9 @@ def verify(validator, v_item):
 
         if len(spec.enumerations) > 0:
             found = False
+            value = first_value(h5_obj)
             for enum in spec.enumerations:
-                obj = h5_obj[()]
-                if isinstance(obj, (list, tuple, numpy.ndarray)):
-                    obj = obj[0]
-                found = enum == utils.decode_byte_string(obj)
+                found = isinstance(value, str) and enum == value
                 if found:
                     break
             msg = "%s:%s" % (ad_name, field)
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 9c809a8..46dd06b 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -80,7 +80,9 @@ def axes_handler(validator, v_item):
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
         h5parent = v_item.parent.h5_object
-        if h5parent.get(axis_name) is not None:
+        if utils.isHdf5Dataset(h5parent):
+            h5parent = v_item.parent.parent.h5_object
+        if utils.get_child(h5parent, axis_name) is not None:
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -95,9 +97,11 @@ def axes_handler(validator, v_item):
 def nxclass_handler(validator, v_item):
     """validate @NX_class"""
     nx_class = utils.decode_byte_string(v_item.h5_object)
-    nxdl = validator.manager.classes.get(nx_class)
+    nxdl = None
+    if isinstance(nx_class, str):
+        nxdl = validator.manager.classes.get(nx_class)
     if nxdl is None:
-        c = "not a recognized NXDL class: " + nx_class
+        c = f"not a recognized NXDL class: {nx_class}"
         status = finding.ERROR
     elif isBaseClassNXDL(nxdl):
         c = "recognized NXDL base class: " + nx_class
@@ -121,7 +125,7 @@ def signal_handler(validator, v_item):
     signal = utils.decode_byte_string(v_item.h5_object)
     if utils.isNeXusDataset(v_item.parent.h5_object):
         if (
-            str(signal).isdigit() and int(signal) == 1
+            str(signal).isdecimal() and int(signal) == 1
         ):  # could error if signal is other text!
             status = finding.OK
             c = "found plottable data marker"
@@ -131,7 +135,7 @@ def signal_handler(validator, v_item):
         validator.record_finding(v_item, TEST_NAME, status, c)
     elif utils.isHdf5Group(v_item.parent.h5_object):
         k = item_name.validItemName_match_key(validator, signal)
-        test_name = "valid name @signal=" + signal
+        test_name = f"valid name @signal={signal}"
         if k is None:
             status = finding.ERROR
             k = "not a valid NeXus name"
@@ -142,10 +146,10 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = signal in v_item.parent.h5_object
+        test = isinstance(signal, str) and signal in v_item.parent.h5_object
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
-        c += ": @signal=" + signal
+        c += f": @signal={signal}"
         validator.record_finding(v_item, TEST_NAME, status, c)
     else:
         generic_handler(validator, v_item)
@@ -155,7 +159,7 @@ def target_handler(validator, v_item):
     """validate @target"""
     target = utils.decode_byte_string(v_item.h5_object)
 
-    if not target.startswith("/"):
+    if not isinstance(target, str) or not target.startswith("/"):
         status = finding.ERROR
         c = 'value be must absolute HDF5 address, start with "/"'
         validator.record_finding(v_item, TEST_NAME, status, c)
@@ -170,13 +174,13 @@ def target_handler(validator, v_item):
             return
         else:
             addr += "/" + p
-            if addr not in validator.h5:
+            if utils.get_child(validator.h5, addr) is None:
                 status = finding.ERROR
                 c = "partial HDF5 address not found in file: " + addr
                 validator.record_finding(v_item, TEST_NAME, status, c)
                 return
 
-    test = target in validator.h5
+    test = utils.get_child(validator.h5, target) is not None
     status = finding.TF_RESULT[test]
     c = {True: "found", False: "not found"}[test]
     c += ": @target=" + target
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index c8bfc27..4da6873 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = v in v_item.h5_object
+    found = isinstance(v, str) and v in v_item.h5_object
     if found:
         status = finding.OK
         c = "found"
@@ -32,7 +32,7 @@ def child_exists(validator, test_name, v, v_item, a_item):
     c += ": " + v_item.h5_address
     if not c.endswith("/"):
         c += "/"
-    c += v
+    c += str(v)
     validator.record_finding(a_item, test_name, status, c)
 
 
@@ -67,13 +67,13 @@ def verify_group_attributes(validator, v_item, base_class):
         spec = base_class.attributes[k]
 
         if len(spec.enumerations) > 0:
-            match = v in spec.enumerations
+            match = isinstance(v, str) and v in spec.enumerations
             status = finding.TF_RESULT[match]
             if match:
                 c = "found"
             else:
                 c = "not found"
-            c += ": " + v
+            c += f": {v}"
             test_name = "attribute value enumeration"
             validator.record_finding(a_item, test_name, status, c)
             # TODO: ...
@@ -95,14 +95,14 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in v_item.manager.addresses
+            found = isinstance(v, str) and v in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
             else:
                 status = finding.ERROR
                 c = "not found"
-            c += ": " + v_item.h5_address + "/@target = " + v
+            c += f": {v_item.h5_address}/@target = {v}"
             validator.record_finding(a_item, test_name, status, c)
 
         elif k == "axes":
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9d31d90..ed0f13e 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -36,7 +36,7 @@ def isNeXusLinkTarget(v_item):
     if "target" in v_item.h5_object.attrs:
         source_name = utils.decode_byte_string(v_item.h5_address)
         target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
-        return target_name != source_name
+        return not isinstance(target_name, str) or target_name != source_name
     return False  # no @target attribute at all
 
 
@@ -111,7 +111,7 @@ def handle_NX_class(validator, v_item):
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile("^" + p + "$")
-        s = utils.decode_byte_string(v_item.h5_object)
+        s = str(utils.decode_byte_string(v_item.h5_object))
         m = validator.regexp_cache[k].match(s)
         matches = m is not None and m.string == s
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
@@ -151,15 +151,17 @@ def getValidItemNamePatterns(validator, key=None):
 
 def validItemName_match_key(validator, text):
     """Return the validItemName key that matches text, or None"""
+    text = utils.decode_byte_string(text)
+    if not isinstance(text, str):
+        return None
     patterns = getValidItemNamePatterns(validator)
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile("^" + p + "$")
 
-        s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
-        logger.debug("checking %s with %s: %s", s, k, str(matches))
+        m = validator.regexp_cache[k].match(text)
+        matches = m is not None and m.string == text
+        logger.debug("checking %s with %s: %s", text, k, str(matches))
         if matches:
             return k
 
-- 
2.43.0


From 96564ff58d8c9f25fe8cf318eea917a6b04b26de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:05 +0000
Subject: [PATCH 16/31] fix: validate NXDL files, and report a file that is not
 there

---
 punx/main.py     | 21 ++++++++++++++-------
 punx/validate.py | 25 ++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index 70984ad..12f9a29 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -73,7 +73,7 @@ logging.basicConfig(
 
 
 from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
@@ -159,6 +159,9 @@ def func_demo(args):
 
 def func_tree(args):
     """print the tree structure of a NeXus HDF5 data file of NXDL XML file"""
+    if not os.path.exists(args.infile):
+        exit_message("File not found: " + args.infile)
+
     if args.infile.endswith(".nxdl.xml"):
         from . import nxdltree
 
@@ -194,12 +197,6 @@ def func_validate(args):
 
     cm = cache_manager.CacheManager()
 
-    if args.infile.endswith(".nxdl.xml"):
-        result = validate.validate_xml(args.infile)
-        if result is None:
-            print(args.infile, " validates")
-        return
-
     file_sets = list(cm.all_file_sets.keys())
     if args.file_set_name not in file_sets:
         exit_message(
@@ -207,6 +204,16 @@ def func_validate(args):
             f"  Either install it or use one of these: {', '.join(file_sets)}"
         )
 
+    if args.infile.endswith(".nxdl.xml"):
+        try:
+            validate.validate_xml(args.infile, args.file_set_name)
+        except FileNotFound:
+            exit_message("File not found: " + args.infile)
+        except InvalidNxdlFile as exc:
+            exit_message(f"{args.infile} does not validate: {exc}")
+        print(args.infile, " validates")
+        return
+
     validator = validate.Data_File_Validator(args.file_set_name)
 
     # determine which findings are to be reported
diff --git a/punx/validate.py b/punx/validate.py
index 852ceba..26d2e7b 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -20,6 +20,7 @@ PUBLIC
 .. autosummary::
 
    ~Data_File_Validator
+   ~validate_xml
 
 INTERNAL
 
@@ -32,10 +33,12 @@ INTERNAL
 import collections
 import h5py
 import logging
+import lxml.etree
 import os
 import pyRestTable
 
-from . import FileNotFound, HDF5_Open_Error
+from . import FileNotFound, HDF5_Open_Error, InvalidNxdlFile
+from . import cache_manager
 from . import finding
 from . import utils
 from . import nxdl_manager
@@ -48,6 +51,26 @@ VALIDITEMNAME_STRICT_PATTERN = r"[a-z_][a-z0-9_]*"
 logger = utils.setup_logger(__name__)
 
 
+def validate_xml(xml_file_name, ref=None):
+    """
+    validate an NXDL file against the XML Schema of a NXDL file set
+
+    :param str xml_file_name: name of NXDL file
+    :param str ref: name of NXDL file set (default: the default file set)
+    :raises FileNotFound: no such file
+    :raises InvalidNxdlFile: file is not valid
+    """
+    if not os.path.exists(xml_file_name):
+        raise FileNotFound(xml_file_name)
+    cm = cache_manager.CacheManager()
+    file_set = cm.default_file_set if ref is None else cm.find_NXDL_file_set(ref)
+    try:
+        tree = lxml.etree.parse(xml_file_name)
+    except lxml.etree.XMLSyntaxError as exc:
+        raise InvalidNxdlFile(exc)
+    nxdl_manager.validate_xml_tree(tree, file_set.schema_manager.lxml_schema)
+
+
 class Data_File_Validator(object):
 
     """
-- 
2.43.0


From a37f19004f33818d506267c7d831444b1f5807e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 17/31] fix: a file that can not be read is not mistaken for a
 file without NXentry

---
 punx/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 221c1c4..43c744e 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -166,11 +166,9 @@ def isNeXusFile(filename):
     with h5py.File(filename, "r") as root:
         if isHdf5FileObject(root):
             for item in root:
-                try:
-                    if isNeXusGroup(root[item], "NXentry"):
-                        return True
-                except KeyError:
-                    pass
+                # (skips a link that leads nowhere)
+                if isNeXusGroup(get_child(root, item), "NXentry"):
+                    return True
     return False
 
 
-- 
2.43.0


From 3728e8a2617d7b9d0951b6951396c9024917787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 18/31] fix: a concurrent installer does not undo an
 installation that succeeded

---
 punx/cache_manager.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index d05227c..12c851a 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -62,6 +62,7 @@ and :mod:`~punx.nxdl_manager`.
 """
 
 import datetime
+import errno
 import json
 import os
 import pathlib
@@ -231,6 +232,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
     )
     download_path = staging_path / "new" / top_name
     previous_path = staging_path / "previous"
+    overtaken = False
     try:
         item_count = 0
         dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
@@ -264,10 +266,17 @@ def download_file_set(file_set_name, cache_path, replace=False):
         # last, rename the ``download_path`` directory to ``file_set_name``
         if NXDL_refs_dir_name.exists():
             os.rename(NXDL_refs_dir_name, previous_path)
-        os.rename(download_path, NXDL_refs_dir_name)
+        try:
+            os.rename(download_path, NXDL_refs_dir_name)
+        except OSError as exc:
+            # another process has installed this file set meanwhile
+            overtaken = exc.errno in (errno.EEXIST, errno.ENOTEMPTY)
+            raise
     finally:
-        if previous_path.exists() and not NXDL_refs_dir_name.exists():
-            os.rename(previous_path, NXDL_refs_dir_name)
+        # put the previous file set back, unless something newer took its place
+        if previous_path.exists() and download_path.exists() and not overtaken:
+            if not NXDL_refs_dir_name.exists():
+                os.rename(previous_path, NXDL_refs_dir_name)
         shutil.rmtree(staging_path, ignore_errors=True)
     print(f"Installed in directory: {NXDL_refs_dir_name}")
 
-- 
2.43.0


From ed4ad34316107bf52f20f1114f74fe1e15015540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 19/31] fix: the types of a file set are never those of another
 one

---
 punx/schema_manager.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index a2cbc0f..f437c3d 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -167,16 +167,7 @@ class SchemaManager(object):
         """
         get the allowed data types and unit types from nxdlTypes.xsd
         """
-        if os.path.exists(self.schema_file):
-            path = os.path.dirname(self.schema_file)
-        else:
-            from punx import cache_manager
-
-            cm = cache_manager.CacheManager()
-            if cm is None or cm.default_file_set is None:
-                raise ValueError("Could not get NXDL file set from the cache")
-            path = cm.default_file_set.path
-
+        path = os.path.dirname(self.schema_file)
         self.types_file = os.path.join(path, "nxdlTypes.xsd")
         if not os.path.exists(self.types_file):
             raise FileNotFound(self.types_file)
-- 
2.43.0


From e7293743c668e6ce47821ea72a7d85cb06f634c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 20/31] fix: a file that can not be looked at is not shown as
 an empty tree

---
 punx/main.py  | 6 ++++--
 punx/utils.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index 12f9a29..01cba6e 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -172,7 +172,6 @@ def func_tree(args):
         except Exception as exc:
             exit_message(str(exc))
         report = mc.report(args.show_attributes)
-        print("\n".join(report or ""))
 
     else:
         from . import h5tree
@@ -186,7 +185,10 @@ def func_tree(args):
             report = mc.report(args.show_attributes)
         except HDF5_Open_Error:
             exit_message("Could not open as HDF5: " + args.infile)
-        print("\n".join(report or ""))
+
+    if report is None:  # could not look at it
+        exit_message("File not found: " + args.infile)
+    print("\n".join(report))
 
 
 def func_validate(args):
diff --git a/punx/utils.py b/punx/utils.py
index 43c744e..9b6a26d 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -160,8 +160,10 @@ def __isHdf5ExternalLink(obj):
 
 def isNeXusFile(filename):
     """Is `filename` is a NeXus HDF5 file?"""
-    if not os.path.exists(filename):
-        return None
+    try:
+        os.stat(filename)
+    except (FileNotFoundError, NotADirectoryError, ValueError):
+        return None  # no such file (any other problem is raised)
 
     with h5py.File(filename, "r") as root:
         if isHdf5FileObject(root):
-- 
2.43.0


From 342e020d1baae48c6f5e0c26acc900ffd8848dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:07 +0000
Subject: [PATCH 21/31] fix: text that can not be a name, and types found in
 other files, do not abort

---
 punx/utils.py                                      | 13 +++++++++++--
 punx/validations/attribute.py                      |  2 +-
 punx/validations/hdf5_group_items_in_base_class.py |  2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 9b6a26d..aa7034d 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,6 +30,7 @@ utility routines
 import h5py
 import logging
 import os
+import posixpath
 import numpy
 
 
@@ -80,6 +81,10 @@ def get_child(group, name):
     """
     if not isinstance(name, str) or not name:
         return None
+    try:
+        name.encode("utf8")
+    except UnicodeEncodeError:
+        return None  # not the name of any object
     # Follow the path one name at a time.
     obj = group.file["/"] if name.startswith("/") else group
     names = name.split("/")
@@ -126,9 +131,13 @@ def isHdf5Dataset(obj):
 
 def isHdf5Link(obj):
     """Is `obj` an HDF5 Link?"""
-    if not hasattr(obj, "parent"):
+    if not isinstance(obj, h5py.HLObject) or obj.name is None:
+        return False
+    # (no parent if it was found through a link into another file)
+    parent = get_child(obj.file, posixpath.dirname(obj.name) or "/")
+    if parent is None:
         return False
-    details = obj.parent.get(obj.name, getlink=True)
+    details = parent.get(obj.name, getlink=True)
     return isinstance(details, (h5py.HardLink, h5py.SoftLink))
 
 
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 46dd06b..e9a0973 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -146,7 +146,7 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = isinstance(signal, str) and signal in v_item.parent.h5_object
+        test = utils.get_child(v_item.parent.h5_object, signal) is not None
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
         c += f": @signal={signal}"
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 4da6873..3b03cd0 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = isinstance(v, str) and v in v_item.h5_object
+    found = utils.get_child(v_item.h5_object, v) is not None
     if found:
         status = finding.OK
         c = "found"
-- 
2.43.0


From 5dcb223cbc957899c04fd7781641f17c4a097618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:42 +0000
Subject: [PATCH 22/31] fix: text that is not UTF-8 can be reported

---
 punx/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index aa7034d..e2c643b 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -48,9 +48,8 @@ def decode_byte_string(value):
             return _decode_items(value.tolist())
         else:
             return None
-    elif isinstance(value, (bytes, numpy.bytes_)):
-        # HDF5 strings are ASCII or UTF-8, whatever the console can show
-        return value.decode("utf8", errors="replace")
+    elif isinstance(value, (bytes, str)):
+        return _decode_text(value)
     else:
         return value
 
@@ -59,6 +58,14 @@ def _decode_items(value):
     """str of every item in (nested) list: value"""
     if isinstance(value, list):
         return [_decode_items(v) for v in value]
+    return _decode_text(value)
+
+
+def _decode_text(value):
+    """str of value, something that can be printed"""
+    # HDF5 strings are ASCII or UTF-8, whatever the console can show
+    if isinstance(value, str):
+        value = value.encode("utf8", errors="surrogateescape")  # as stored
     if isinstance(value, bytes):
         return value.decode("utf8", errors="replace")
     return str(value)
-- 
2.43.0


From 52146eecd85a36e09cdae5a537d41f4954e38fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:42 +0000
Subject: [PATCH 23/31] fix: close() also closes the files that external links
 lead to

---
 punx/validate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/punx/validate.py b/punx/validate.py
index 26d2e7b..b6bea5d 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -137,6 +137,10 @@ class Data_File_Validator(object):
         if utils.isHdf5FileObject(self.h5):
             self.h5.close()
             self.h5 = None
+            for v_item in self.addresses.values():
+                # found in another file: that is to be closed, too
+                if isinstance(v_item.h5_object, h5py.HLObject) and v_item.h5_object:
+                    v_item.h5_object = None
 
     def record_finding(self, v_item, key, status, comment):
         """
-- 
2.43.0


From c749f68d974ccf44fb3ce18a10b5e0986003dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 24/31] fix: a group may have any NX_class

Where the text of NX_class ended with a slash, the groups in that group were
not given a class, and validation aborted (AttributeError).
---
 punx/validate.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index b6bea5d..836b9db 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -527,28 +527,26 @@ class ValidationItem(object):
                 logger.log(INFORMATIVE, "%s is not NeXus content", h5_obj.name)
                 return CLASSPATH_OF_NON_NEXUS_CONTENT
 
-            if not classpath.endswith(SLASH):
-
-                if utils.isHdf5Group(h5_obj):
-                    nx_class = None
-                    if "NX_class" in h5_obj.attrs:
-                        nx_class = utils.decode_byte_string(h5_obj.attrs["NX_class"])
-
-                    if isinstance(nx_class, str) and nx_class.startswith("NX"):
-                        self.nx_class = nx_class  # only for groups
-                        logger.log(
-                            INFORMATIVE,
-                            "NeXus base class: " + nx_class,
-                        )
-                    else:
-                        logger.log(
-                            INFORMATIVE,
-                            "HDF5 group is not NeXus: " + self.h5_address,
-                        )
-                        return CLASSPATH_OF_NON_NEXUS_CONTENT
+            if utils.isHdf5Group(h5_obj):
+                nx_class = None
+                if "NX_class" in h5_obj.attrs:
+                    nx_class = utils.decode_byte_string(h5_obj.attrs["NX_class"])
+
+                if isinstance(nx_class, str) and nx_class.startswith("NX"):
+                    self.nx_class = nx_class  # only for groups
+                    logger.log(
+                        INFORMATIVE,
+                        "NeXus base class: " + nx_class,
+                    )
                 else:
-                    nx_class = self.name
+                    logger.log(
+                        INFORMATIVE,
+                        "HDF5 group is not NeXus: " + self.h5_address,
+                    )
+                    return CLASSPATH_OF_NON_NEXUS_CONTENT
+            else:
+                nx_class = self.name
 
-                classpath += SLASH + nx_class
+            classpath += SLASH + nx_class
 
             return classpath
-- 
2.43.0


From 464218861801b1cbfaa37c1b3e4a9e0596961b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 25/31] fix: the report of a file never shows findings of
 another one

When a file could not be opened, print_report() showed the findings of the
file validated before, under the name of the new one.
---
 punx/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 836b9db..0659f50 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -256,13 +256,13 @@ class Data_File_Validator(object):
 
         if self.h5 is not None:
             self.close()  # left open from previous call to validate()
+        self.__init_local__()  # findings of the previous file are not of this one
         try:
             self.h5 = h5py.File(fname, "r")
         except IOError:
             logger.error("Could not open as HDF5: " + fname)
             raise HDF5_Open_Error(fname)
 
-        self.__init_local__()
         self.build_address_catalog()
 
         # 1. check all objects in file (name is valid, ...)
-- 
2.43.0


From c3f4e62f43a37b956d93e198c47824c2cc533b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 26/31] fix: a name must match the whole pattern

A name that ends with a line break was accepted, and the anchors did not hold
for each alternative of a pattern.
---
 punx/validations/item_name.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index ed0f13e..3ab09d5 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -110,10 +110,9 @@ def handle_NX_class(validator, v_item):
     status = finding.ERROR
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
         s = str(utils.decode_byte_string(v_item.h5_object))
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        matches = validator.regexp_cache[k].fullmatch(s) is not None
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -157,10 +156,9 @@ def validItemName_match_key(validator, text):
     patterns = getValidItemNamePatterns(validator)
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
 
-        m = validator.regexp_cache[k].match(text)
-        matches = m is not None and m.string == text
+        matches = validator.regexp_cache[k].fullmatch(text) is not None
         logger.debug("checking %s with %s: %s", text, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From 4b9b7381209d29028e7db2b339215e6932ddf19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:59 +0000
Subject: [PATCH 27/31] fix: an attribute that can not be read is not an
 attribute without a value

h5py's attrs.items() yields None as the value of an attribute that can not
be read, and the tree and the findings were made from it.
---
 punx/h5tree.py                                     |  4 ++--
 punx/utils.py                                      | 10 ++++++++++
 punx/validate.py                                   |  2 +-
 punx/validations/hdf5_group_items_in_base_class.py |  2 +-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 894f862..30e4d68 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -191,8 +191,8 @@ class Hdf5TreeView(object):
         """return a [formatted_string] with any attributes"""
         s = []
         if self.show_attributes:
-            for d in (obj.attrs, extra):
-                for name, value in d.items():
+            for items in (utils.get_attributes(obj), extra.items()):
+                for name, value in items:
                     s.append(
                         self._renderSingleAttribute(indentation, name, value)
                     )
diff --git a/punx/utils.py b/punx/utils.py
index e2c643b..035b773 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -121,6 +121,16 @@ def get_child(group, name):
     return group[name]
 
 
+def get_attributes(obj):
+    """
+    Return a list of the names and values of the attributes of `obj`
+
+    A problem with reading one is raised (``obj.attrs.items()`` would
+    give ``None`` as its value).
+    """
+    return [(name, obj.attrs[name]) for name in obj.attrs]
+
+
 def isHdf5FileObject(obj):
     """Is `obj` an HDF5 File?"""
     return isinstance(obj, h5py.File)
diff --git a/punx/validate.py b/punx/validate.py
index 0659f50..0c1b490 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -311,7 +311,7 @@ class Data_File_Validator(object):
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
-            for k, a in sorted(o.attrs.items()):
+            for k, a in sorted(utils.get_attributes(o)):
                 av = ValidationItem(v, a, attribute_name=k)
                 self.addresses[av.h5_address] = av
                 addClasspath(av)
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 3b03cd0..d314bc0 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -48,7 +48,7 @@ def verify_group_attributes(validator, v_item, base_class):
         Instance of :class:`~punx.nxdl_manager.NXDL__definition`
         (a class that represents one of the NXDL specifications)
     """
-    for k, v in sorted(v_item.h5_object.attrs.items()):
+    for k, v in sorted(utils.get_attributes(v_item.h5_object)):
         k = utils.decode_byte_string(k)
         v = utils.decode_byte_string(v)
         known = k in base_class.attributes
-- 
2.43.0


From 0a862d3433763f7b4542a508e8f28752b23970b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:12 +0000
Subject: [PATCH 28/31] fix: definitions of applications no longer change the
 defaults of all other classes

---
 punx/nxdl_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 62db998..a49a4aa 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -29,6 +29,7 @@ name).
 from __future__ import print_function
 
 import collections
+import copy
 import lxml.etree
 import os
 
@@ -217,7 +218,8 @@ class NXDL__base(object):
             Instance of nxdl_schema.NXDL_schema__element.
         """
         for k, v in sorted(defaults.attributes.items()):
-            self.xml_attributes[k] = v
+            # a copy: the defaults are shared by all definitions
+            self.xml_attributes[k] = copy.copy(v)
 
     def parse_attributes(self, xml_node):
         """
-- 
2.43.0


From 8672c0c55866895d7717d7a31d6f68a7d07d5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:12 +0000
Subject: [PATCH 29/31] fix: a copied or renamed file set is known by one name

---
 punx/cache_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 12c851a..5ba1069 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -485,6 +485,7 @@ class Base_Cache(object):
                         logger.critical("ignoring file set %s: %s", item, exc)
                         continue
                     file_set.cache = self.label
+                    file_set.ref = item  # its name, if copied or renamed
                     fs[item] = file_set
         return fs
 
-- 
2.43.0


From f1ad0cd47ef52faa9db71eda0cac27eb457c50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:34 +0000
Subject: [PATCH 30/31] fix: default plot of fields with a fixed-length text
 attribute signal=1

---
 punx/validations/default_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 05dbc16..38aff7b 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -126,7 +126,7 @@ def default_plot_v2(validator):
         if k.endswith("@signal"):
             for v_item in v:
                 if utils.isNeXusDataset(v_item.parent.h5_object):
-                    signal = str(v_item.h5_object)
+                    signal = str(utils.decode_byte_string(v_item.h5_object))
                     if signal == "1":
                         status = finding.OK
                         c = "found field with @signal=1: " + v_item.h5_address
-- 
2.43.0


From 3ae233db92bcec8c6f7d0e39a526841969496ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:15 +0000
Subject: [PATCH 31/31] fix: a file set that can not be shown as text disabled
 punx

A directory with a name that is not UTF-8, or a description with a lone
surrogate, in the user cache made configuration and install fail with
UnicodeEncodeError.  Ignore such a file set as other damaged ones.
---
 punx/cache_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 5ba1069..233e5dd 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -480,6 +480,7 @@ class Base_Cache(object):
                 if os.path.exists(info_file):
                     file_set = NXDL_File_Set()
                     try:
+                        item.encode("utf8")  # UnicodeEncodeError: can not be shown
                         file_set.read_info_file(info_file)
                     except (OSError, ValueError, RecursionError) as exc:
                         logger.critical("ignoring file set %s: %s", item, exc)
@@ -602,6 +603,7 @@ class NXDL_File_Set(object):
         for k in "ref sha last_modified".split():
             if not isinstance(obj.get(k), str):
                 raise ValueError(f"no valid '{k}' in info file: {file_name}")
+            obj[k].encode("utf8")  # UnicodeEncodeError: can not be shown
         for k in self.json_file_keys:
             self.__setattr__(k, obj.get(k))
         self.info_content = obj
-- 
2.43.0

