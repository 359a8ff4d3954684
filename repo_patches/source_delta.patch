From fc18a2bcf219f2c9f37e2d9e2cd498143b03f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:37 +0000
Subject: [PATCH 01/38] fix: do not abort parsing when a file ends inside a
 continued line or function

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..05b9297 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From 511de35df5a2c136bcdb3a7d77630cc3ab9a70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:06 +0000
Subject: [PATCH 02/38] fix: do not recurse endlessly when a file includes
 itself

---
 oelint_parser/cls_stash.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..1e3a474 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -130,6 +130,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__active_files = set()
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -173,16 +174,23 @@ class Stash():
             return []
         if _file in self.__seen_classes:
             return []
+        if _file in self.__active_files:
+            # the file (indirectly) includes itself
+            return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        self.__active_files.add(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__active_files.discard(_file)
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-- 
2.43.0


From adea2a7dd4b1cb27165ea084a6a189dcc10574d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:12 +0000
Subject: [PATCH 03/38] fix: link already parsed classes to every file
 inheriting them

---
 oelint_parser/cls_stash.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1e3a474..74faa7e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -171,11 +171,14 @@ class Stash():
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
         if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
+            self.__add_link(_file, forcedLink)
             return []
         if _file in self.__seen_classes:
+            self.__add_link(_file, forcedLink)
             return []
         if _file in self.__active_files:
             # the file (indirectly) includes itself
+            self.__add_link(_file, forcedLink)
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
@@ -191,12 +194,7 @@ class Stash():
                             negative=self.__negative_inline)
         finally:
             self.__active_files.discard(_file)
-        if _file not in self.__map:
-            self.__map[_file] = []
-        if forcedLink:
-            if forcedLink not in self.__map:
-                self.__map[forcedLink] = []
-            self.__map[forcedLink].append(_file)
+        self.__add_link(_file, forcedLink)
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
@@ -236,6 +234,15 @@ class Stash():
 
         return res
 
+    def __add_link(self, _file: str, forcedLink: str = None) -> None:
+        if _file not in self.__map:
+            self.__map[_file] = []
+        if forcedLink:
+            if forcedLink not in self.__map:
+                self.__map[forcedLink] = []
+            self.__map[forcedLink].append(_file)
+        self._clear_cached()
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
-- 
2.43.0


From 36449aff072c5be7d580e495a2a9ab65a9e7b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 04/38] fix: honor assignments without surrounding whitespace
 in ExpandVar

---
 oelint_parser/cls_stash.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 74faa7e..80a16ec 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -510,31 +510,31 @@ class Stash():
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if INLINE_BLOCK in item.VarValueStripped:
                 _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
+            elif varop in ["=", ":="]:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ?= " and _exp[name] is None:
+            elif varop == "?=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ??= " and _exp[name] is None:
+            elif varop == "??=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " += ":
+            elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += " " + item.VarValueStripped
-            elif varop == " =+ ":
+            elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + " " + _exp[name]
-            elif varop in [" .= "]:
+            elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += item.VarValueStripped
-            elif varop in [" =. "]:
+            elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + _exp[name]
-- 
2.43.0


From a3d734151a8628fec2eda4058c1561be7bd47a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 05/38] fix: record every occurrence of a repeated inline block

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 05b9297..d714ed0 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From 68dcbfcd52604cf1cdbd2f397c8c0a6627465f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 06/38] fix: only restore inline blocks which could not be
 resolved

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 80a16ec..d742f6b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -741,7 +741,8 @@ class Stash():
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
         for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+            if item[1] == INLINE_BLOCK:
+                res = res.replace(*reversed(item), 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
-- 
2.43.0


From e5f9f57ba757b772dd155686d61bf38dc85533cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 07/38] fix: apply the operator of assignments with inline
 blocks in ExpandVar

---
 oelint_parser/cls_stash.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d742f6b..9d391d7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -514,65 +514,64 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
-                _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in ["=", ":="]:
-                _exp[name] = item.VarValueStripped
+            value = self._ReverseInlineBlock(item)
+            if varop in ["=", ":="]:
+                _exp[name] = value
             elif varop == "?=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == "??=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
+                _exp[name] += " " + value
             elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
+                _exp[name] = value + " " + _exp[name]
             elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            value = self._ReverseInlineBlock(item)
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for the run with remove
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            value = self._ReverseInlineBlock(item)
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _exp[name] = _exp[name].replace(value, "")
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From 87f2c20af9f3ddbae10e86393b861c3b97129c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 08/38] fix: remove whole items only when expanding the remove
 override

---
 oelint_parser/cls_stash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9d391d7..0c96fc9 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -14,6 +14,7 @@ from oelint_parser.parser import INLINE_BLOCK, get_items
 from oelint_parser.rpl_regex import RegexRpl
 
 __safeline_split_regex__ = regex.compile(r"\s|\t|\x1b")
+__whitespace_regex__ = regex.compile(r"(\s|\x1b)")
 __class_id_regex__ = regex.compile(r"^(nativesdk-)*(.+)(-native)*(-cross)*")
 __class_id_native_regex__ = regex.compile(r"^(.+)(-native)$")
 __class_id_cross_regex__ = regex.compile(r"^(.+)(-cross)$")
@@ -547,10 +548,7 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += value
-            elif "append" in item.SubItems:
+            if "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += value
@@ -571,7 +569,9 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(value, "")
+                _removes = Item.safe_linesplit(value)
+                _exp[name] = "".join(x for x in RegexRpl.split(
+                    __whitespace_regex__, _exp[name]) if x not in _removes)
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From 9ea0afcf37fa89f3d602b403c1efc9cee70e607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 09/38] fix: extend stash lists with the given items

---
 oelint_parser/cls_stash.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0c96fc9..8375db6 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -45,8 +45,9 @@ class Stash():
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
-        def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+        def __iadd__(self, __value: Iterable) -> 'Stash.StashList':
+            self.extend(__value)
+            return self
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
@@ -75,8 +76,9 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            if isinstance(other, type(Stash.StashList)):
-                self.data.extend(other.data)
+            if isinstance(other, Stash.StashList):
+                other = other.data
+            self.data.extend(other)
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
-- 
2.43.0


From a7c4177777d9b357d015fb4a210bbb38d6b97ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 10/38] fix: accept stash lists when appending to or removing
 from a stash list

---
 oelint_parser/cls_stash.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8375db6..c1ad2b6 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -64,8 +64,8 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.append(_item)
             else:
                 self.data.append(item)
@@ -86,8 +86,8 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.remove(_item)
             else:
                 self.data.remove(item)
-- 
2.43.0


From 886c4214543e8ec73ce2db77ab3f482c05e88e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 11/38] fix: drop all cached answers when the stash changes

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index c1ad2b6..bf9c024 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -144,13 +144,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 510c64e1bdbef8cad64d00729b7af08292cf5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 12/38] fix: do not use answers cached before the files were
 linked in Finalize

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index bf9c024..b05b079 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -313,6 +313,9 @@ class Stash():
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
 
+        # answers given before the links were complete are not valid anymore
+        self._clear_cached()
+
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
                 item.IncludedFrom = v
-- 
2.43.0


From 7bc540cef11f8881340531a28256a4c2fe136941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 13/38] fix: return an empty dictionary for constant paths
 beyond a leaf

---
 oelint_parser/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..9ed1c3f 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -38,6 +38,8 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
+            if not isinstance(data, dict):
+                return {}
             data = data.get(value, {})
         return data
 
-- 
2.43.0


From b23315728deb355de60ce0487e2845f8385d792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 14/38] fix: do not share constants with the dictionaries
 passed by the caller

---
 oelint_parser/constants.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 9ed1c3f..bec4372 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -52,7 +53,7 @@ class Constants():
         def dict_merge(a: dict, b: dict) -> dict:
             for k, v in b.items():
                 if k not in a:
-                    a[k] = v
+                    a[k] = copy.deepcopy(v)
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
                 else:
@@ -86,11 +87,11 @@ class Constants():
         def dict_merge(a: dict, b: dict) -> dict:
             for k, v in b.items():
                 if k not in a:
-                    a[k] = v
+                    a[k] = copy.deepcopy(v)
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
                 else:
-                    a[k] = v
+                    a[k] = copy.deepcopy(v)
             return a
         self.__db = dict_merge(self.__db, _dict)
 
-- 
2.43.0


From 2f31ace128f5b176b7fec1f6ff52fdf84afc9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 15/38] fix: keep spared variables unexpanded in nested
 expansions

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b05b079..30e47ca 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -786,7 +786,8 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(
+                        _file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -795,7 +796,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
-- 
2.43.0


From 42bff6792157ebdfc537b3836c9680f39f80e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 16/38] fix: tolerate anything unreadable passed to
 oe.utils.read_file

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 30e47ca..c14b572 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -824,7 +824,7 @@ class Stash():
                     "file"), spare=spare, seen=seen).strip("'\"")
                 with open(_fullpath) as i:
                     res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+            except (OSError, ValueError):
                 res = ''
         return res
 
-- 
2.43.0


From 60eaec18f37442e38e4f63de21f15e704819c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:10 +0000
Subject: [PATCH 17/38] fix: keep the full value of SRC_URI options

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index c14b572..ddeff82 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -686,7 +686,7 @@ class Stash():
             _tmp += "/" + _url.path.lstrip("/")
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
-        _parsed_opt = {x.split("=")[0]: x.split("=")[1]
+        _parsed_opt = {x.split("=")[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-- 
2.43.0


From 993135e38dcc86be33d6727bbdf7041651b54ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 18/38] fix: stop the layer lookup at any form of the root
 directory

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index ddeff82..a9e7cdc 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -625,7 +625,7 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
                 break
             _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
@@ -647,7 +647,7 @@ class Stash():
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
                 break
             _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-- 
2.43.0


From 1a98ce92f3fa550c844a3cf017334f3c8f24bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 19/38] fix: return items and files in a reproducible order

---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index a9e7cdc..6bf72b6 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -355,7 +355,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -409,7 +409,7 @@ class Stash():
         """
         if not filename:
             return []
-        return [x.Origin for x in self.__get_items_by_file(frozenset(self.__list), filename) if x.Origin != filename]
+        return list(dict.fromkeys(x.Origin for x in self.__get_items_by_file(tuple(self.__list), filename) if x.Origin != filename))
 
     def Reduce(self,
                in_list: Iterable[Item],
@@ -446,7 +446,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue))
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From 1c16b6c0daecf98bf388e0c4647054c86e07d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:34 +0000
Subject: [PATCH 20/38] fix: ignore empty entries of PACKAGES_DYNAMIC

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 6bf72b6..c9a3d1a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -935,8 +935,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
         return packages_dynamic
 
-- 
2.43.0


From 257b2ad960c293233048c47f5f5b864cd39e786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 21/38] fix: match bbappends to recipes by their literal name
 in either order

---
 oelint_parser/cls_stash.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index c9a3d1a..96c3605 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -204,11 +204,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if self.__is_append_for(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -216,14 +214,11 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
+                if self.__is_append_for(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
                     # pretend that we are adding that bbappend to the end of this recipe
                     item.Line = max(item.Line, item.InFileLine + _maxline)
@@ -240,6 +235,12 @@ class Stash():
 
         return res
 
+    @staticmethod
+    def __is_append_for(append: str, recipe: str) -> bool:
+        _name, _ = os.path.splitext(os.path.basename(append))
+        _pattern = ".*".join(regex.escape(x) for x in _name.split("%"))
+        return bool(RegexRpl.match(_pattern + r"\.bb$", os.path.basename(recipe)))
+
     def __add_link(self, _file: str, forcedLink: str = None) -> None:
         if _file not in self.__map:
             self.__map[_file] = []
-- 
2.43.0


From 452ade5df820537ec24d589997dde58de822497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 22/38] fix: keep the order of statements across includes and
 bbappends

---
 oelint_parser/cls_stash.py | 45 +++++++++++++++++++++++++++-----------
 oelint_parser/parser.py    | 12 +++++-----
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 96c3605..6fa0684 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -135,6 +135,8 @@ class Stash():
         self.__seen_classes = set()
         self.__active_files = set()
         self.__map = {}
+        self.__lastline = {}
+        self.__appends = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
         self.__negative_inline = negative_inline
@@ -192,6 +194,12 @@ class Stash():
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
         self.__active_files.add(_file)
+        _itemcount = len(self.__list)
+        if _file.endswith(".bbappend"):
+            # pretend that we are adding the file to the end of the original
+            lineOffset += max((v for k, v in self.__lastline.items()
+                               if self.__is_append_for(_file, k)), default=0)
+        self.__lastline[_file] = lineOffset
         try:
             res = get_items(self,
                             _file,
@@ -201,27 +209,27 @@ class Stash():
         finally:
             self.__active_files.discard(_file)
         self.__add_link(_file, forcedLink)
+        self.__lastline[_file] = max([self.__lastline[_file]] + [r.Line for r in res])
+        if forcedLink in self.__lastline:
+            self.__lastline[forcedLink] = max(self.__lastline[forcedLink], self.__lastline[_file])
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            _maxline = 0
+            self.__appends[_file] = (lineOffset, self.__list[_itemcount:] + res)
             for x in self.__map:
                 if self.__is_append_for(_file, x):
                     self.__map[x].append(_file)
-                    _maxline = max(_maxline, max(
-                        (i.Line for i in self.__list if i.Origin == x), default=0))
-            for r in res:
-                # pretend that we are adding the file to the end of the original
-                r.Line += _maxline
         elif _file.endswith(".bb"):
-            _maxline = max((r.Line for r in res), default=0)
-            for item in self.__list:
-                if not item.Origin.endswith(".bbappend"):
+            for k, (_offset, _items) in self.__appends.items():
+                if not self.__is_append_for(k, _file):
                     continue
-                if self.__is_append_for(item.Origin, _file):
-                    self.__map[_file].append(item.Origin)
-                    # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+                self.__map[_file].append(k)
+                # pretend that we are adding that bbappend to the end of this recipe
+                _shift = max(0, self.__lastline[_file] - _offset)
+                for item in _items:
+                    item.Line += _shift
+                self.__lastline[k] += _shift
+                self.__appends[k] = (_offset + _shift, _items)
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
@@ -250,6 +258,17 @@ class Stash():
             self.__map[forcedLink].append(_file)
         self._clear_cached()
 
+    def GetLastLine(self, _file: str) -> int:
+        """Get the overall line of the last item of a file, including the files it includes
+
+        Args:
+            _file (str): Full path to file
+
+        Returns:
+            int: last line used by the file
+        """
+        return self.__lastline.get(_file, 0)
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index d714ed0..75c2f76 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -345,9 +345,9 @@ def get_items(stash: object,
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                             if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                                includeOffset = stash.GetLastLine(_file) - line["line"]
                     parameter['statement'] = m.group("statement")
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -372,9 +372,9 @@ def get_items(stash: object,
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                             if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                                includeOffset = stash.GetLastLine(_file) - line["line"]
                     parameter['statement'] = 'INHERIT'
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -436,9 +436,9 @@ def get_items(stash: object,
                         if includename in CONSTANTS.IncludeIgnore:
                             continue
                         tmp = stash.AddFile(
-                            _path, lineOffset=line["line"], forcedLink=_file)
+                            _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                         if any(tmp):
-                            includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset = stash.GetLastLine(_file) - line["line"]
                     parameter['incname'] = m.group("incname")
                     parameter['fileincluded'] = _path or ''
                     parameter['statement'] = m.group("statement")
-- 
2.43.0


From 1af2a71cfa4f2275366ef98d993a9ab2c013fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:19 +0000
Subject: [PATCH 23/38] fix: notice timeouts while iterating over matches

---
 oelint_parser/rpl_regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..acdd762 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -101,6 +101,7 @@ class RegexRpl():
             Scanner: Scanner object or None
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            # matching is done lazily, so do it here to notice a timeout
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
-            return default
+            return default or iter([])
-- 
2.43.0


From 46ae6bad24e2aa9bfca82dd419e415d17cd582f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 24/38] fix: honor the flags passed to match

---
 oelint_parser/rpl_regex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index acdd762..40199bd 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -61,7 +61,8 @@ class RegexRpl():
             Match: Match object or None
         """
         try:
-            return regex.match(pattern, string, timeout=timeout, **kwargs)
+            # flags can't be combined with an already compiled pattern
+            return regex.match(pattern, string, flags=flags if isinstance(pattern, str) else 0, timeout=timeout, **kwargs)
         except TimeoutError:
             return default
 
-- 
2.43.0


From 78c050e6eb899cdd2376ef6cf5b01000e2dec444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 25/38] fix: take the full variable name of unset statements

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 75c2f76..360f420 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])*")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From c85cafc7abef79b0ea8cc0e543085e223fbc6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 26/38] fix: recognize python functions with upper case names
 or return annotations

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 360f420..507f19f 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -42,7 +42,7 @@ __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
-    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
+    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\).*\:")
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-- 
2.43.0


From 61099b1abecf19e24d027be35849875bda95ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 27/38] fix: do not abort parsing when an include resolves to a
 directory

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 507f19f..6c31882 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -227,7 +227,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
                         _iter, lineOffset, num, nextbuf, negative=negative)
                     num += length
                     prep_lines.append(item)
-    except FileNotFoundError:
+    except (FileNotFoundError, IsADirectoryError):
         pass
     return prep_lines
 
-- 
2.43.0


From b6b439fde7af19b0ed37839a6c425ebeb1fc22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 28/38] fix: ignore the optional arguments of inline d.getVar
 calls

---
 oelint_parser/inlinerep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..9e413a8 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -24,7 +24,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
+__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
-- 
2.43.0


From 0a42992935ae19eff1680b09236ea4fe1d372900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 29/38] fix: create the same fingerprint in every process

---
 oelint_parser/cls_item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..63bc945 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -258,7 +258,9 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        # sets have no reproducible order
+        _attr = {k: sorted(v) if isinstance(v, set) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=_attr)
 
 
 class Variable(Item):
-- 
2.43.0


From 36cfe900e3ad59b0a1b26fbaba6d05d3d049bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:15 +0000
Subject: [PATCH 30/38] fix: keep the order of chunks when splitting overrides
 from variable names

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 63bc945..da02421 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -194,7 +194,7 @@ class Item():
                 # that addresses things like FILES_${PN}-dev
                 tmp = "-" + "-".join(i.split("-")[1:])
                 i = i.split("-")[0]
-            if RegexRpl.match(__id_regex__, i) and _var[0] != "pkg":  # noqa: P103
+            if _suffix or (RegexRpl.match(__id_regex__, i) and _var[0] != "pkg"):  # noqa: P103
                 _suffix.append(i + tmp)
             elif i in ["${PN}"]:
                 _suffix.append(i + tmp)
-- 
2.43.0


From 7800a46a685b7aa3a973e2c83d84f5e15995b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:29 +0000
Subject: [PATCH 31/38] fix: start the overrides of a function at the modifier
 found

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index da02421..d782430 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -222,9 +222,9 @@ class Item():
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
-        for i in chunks[1:]:
+        for n, i in enumerate(chunks[1:], 1):
             if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
-                _suffix = chunks[chunks.index(i):]
+                _suffix = chunks[n:]
                 break
             else:
                 _var.append(i)
-- 
2.43.0


From 2a3b61b33a449cad6ec2c5fbd02f2a88d792692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 32/38] fix: blanks behind the closing quote were not stripped
 before splitting a value

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index d782430..691d435 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -414,7 +414,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip('"')
+        _x = override.strip('"') or self.VarValue.strip().strip('"')
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
-- 
2.43.0


From 604a0588c42bb8f0a755da37a2dcc28f20a2c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 33/38] fix: the query of an SRC_URI entry was dropped from its
 source

---
 oelint_parser/cls_stash.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 6fa0684..fd4c75d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -697,13 +697,17 @@ class Stash():
         """
         _raw = self._replace_with_known_mirrors(string)
         try:
-            _url = urlparse(self._replace_with_known_mirrors(string))
+            _url = urlparse(_raw.split(";")[0])
         except ValueError:
             return {"scheme": '', "src": '', "options": {}}
         _scheme = _url.scheme
         _tmp = _url.netloc
         if _url.path:
             _tmp += "/" + _url.path.lstrip("/")
+        if _url.query:
+            _tmp += "?" + _url.query
+        if _url.fragment:
+            _tmp += "#" + _url.fragment
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
         _parsed_opt = {x.split("=")[0]: x.split("=", 1)[1]
-- 
2.43.0


From 3c0774c29ef475224b2378c95208aeb99530e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 34/38] fix: task names holding after or before were split in
 addtask

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 6c31882..5a2da32 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?<=\s)(?=after\s))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?<=\s)(?=before\s))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From 397d24dda8059cc684a888a92f4b241601b13f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 35/38] fix: tabs and line continuations in addtask

---
 oelint_parser/cls_item.py | 4 ++--
 oelint_parser/parser.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 691d435..8f91115 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -947,8 +947,8 @@ class TaskAdd(Item):
         """
         super().__init__(*args, **kwargs)
         self.__FuncName = name
-        self.__Before = [x for x in (before or "").split(" ") if x]
-        self.__After = [x for x in (after or "").split(" ") if x]
+        self.__Before = self._safe_linesplit(before or "")
+        self.__After = self._safe_linesplit(after or "")
         self.__Comment = comment or ''
 
     @property
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5a2da32..0e17378 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?<=\s)(?=after\s))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?<=\s)(?=before\s))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)[\s\x1b]*((before[\s\x1b]*(?P<before>(([^#\n]*(?<=\s)(?=after\s))|([^#\n]*))))|(after[\s\x1b]*(?P<after>(([^#\n]*(?<=\s)(?=before\s))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From ff9faad4fbe69f6e1c794787058588c5c2ff6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:51 +0000
Subject: [PATCH 36/38] fix: functions with names starting with python or
 fakeroot were cut

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 0e17378..b4feb21 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -31,7 +31,7 @@ INLINE_BLOCK = "!!!inlineblock!!!"
 __regex_var = regex.compile(
     r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
-    r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
+    r"^((?P<py>python)(?=[\s(])\s*|(?P<fr>fakeroot)(?=[\s(])\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-- 
2.43.0


From 2c65eaaee06e06d5fbfb76953a1f293931217943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:05 +0000
Subject: [PATCH 37/38] fix: blanks behind the path belonged to it in addpylib
 and addfragments

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index b4feb21..718decb 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,11 +53,11 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.*\S)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
     r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])*")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
+    r"addfragments\s+(?P<path>.*\S)\s+(?P<variable>.*\S)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
-- 
2.43.0


From 211a56843f6db5190f19a3b3bc8e7469b6bc580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:41 +0000
Subject: [PATCH 38/38] fix: values and comments holding the start of a
 function swallowed the lines behind them

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 718decb..e0d4a98 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -60,7 +60,7 @@ __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.*\S)\s+(?P<variable>.*\S)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
-    r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+    r"[^\"'=#\n]*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
 
-- 
2.43.0

