From 5ea9efcc827df451769f4a6179ff5a956c8a7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:24 +0000
Subject: [PATCH 001/109] fix: keep conditional macro expansions around
 ordinary %prep lines

Prep.parse() stored only the body of a line wrapped in %{?macro:...}, so the
wrapper was lost as soon as the prep view was left.
---
 specfile/prep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index bf5c880..1546170 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -366,8 +366,8 @@ class Prep(collections.abc.Container):
         )
         data = []
         buffer: List[str] = []
-        for line in section:
-            line, prefix, suffix = split_conditional_macro_expansion(line)
+        for original_line in section:
+            line, prefix, suffix = split_conditional_macro_expansion(original_line)
             m = macro_regex.search(line)
             if m:
                 name, delimiter, option_string = (
@@ -377,7 +377,7 @@ class Prep(collections.abc.Container):
                 )
                 if delimiter == "" and option_string != "":
                     # delimiter can't be empty unless the match is just base macro with no options
-                    buffer.append(line)
+                    buffer.append(original_line)
                     continue
                 prefix += line[: m.start("m")]
                 suffix = line[m.end("o") :] + suffix
@@ -390,7 +390,7 @@ class Prep(collections.abc.Container):
                     None,
                 )
                 if not klass:
-                    buffer.append(line)
+                    buffer.append(original_line)
                     continue
                 options = Options(
                     Options.tokenize(option_string),
@@ -400,7 +400,7 @@ class Prep(collections.abc.Container):
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-                buffer.append(line)
+                buffer.append(original_line)
         return cls(PrepMacros(data, buffer))
 
     def get_raw_section_data(self) -> List[str]:
-- 
2.43.0


From bcee66b993b3edec6ffa00eaef9a482f6248e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:30 +0000
Subject: [PATCH 002/109] fix: make remove_patch_macro() able to remove the
 first prep macro

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index 1546170..b4b043c 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -347,7 +347,7 @@ class Prep(collections.abc.Container):
             ),
             None,
         )
-        if index:
+        if index is not None:
             del self.macros[index]
 
     @classmethod
-- 
2.43.0


From 80142bcaf2b55d72361524c0eea6148162a163ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:36 +0000
Subject: [PATCH 003/109] fix: do not carry trailing whitespace over lines of
 multi-line tag values

---
 specfile/tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index f89c4a0..d78108e 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -521,6 +521,7 @@ class Tags(UserList[Tag]):
                     while (bc > 0 or pc > 0) and lines:
                         value += ws
                         line, _ = pop(lines)
+                        ws = ""
                         tokens = re.split(r"([^\S\n]+)$", line, maxsplit=1)
                         if len(tokens) > 1:
                             line, ws, _ = tokens
-- 
2.43.0


From c6d32e761c9598005eb30763b821c17d999af1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:42 +0000
Subject: [PATCH 004/109] fix: handle negative indices when deleting a tag

Lines associated with the deleted item were handed over to a wrong neighbour.
---
 specfile/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index d78108e..43ef462 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -386,7 +386,7 @@ class Tags(UserList[Tag]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __contains__(self, name: object) -> bool:
         try:
-- 
2.43.0


From 92f91abbb000e1323116c74d965020612cbffd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 005/109] fix: handle negative indices when deleting a macro
 definition

Lines associated with the deleted item were handed over to a wrong neighbour.
---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index cc7c775..00bd6a5 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -242,7 +242,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "MacroDefinitions":
         return copy.copy(self)
-- 
2.43.0


From e081184e189e9ab6cc061acace26a6b44464fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:53 +0000
Subject: [PATCH 006/109] fix: handle negative indices when deleting a prep
 macro

Lines associated with the deleted item were handed over to a wrong neighbour.
---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index b4b043c..77b270c 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -219,7 +219,7 @@ class PrepMacros(UserList[PrepMacro]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __getattr__(self, name: str) -> PrepMacro:
         if not valid_prep_macro(name):
-- 
2.43.0


From a95d698a5bdd8e5ee5aa924617895ba5b21ea8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:59 +0000
Subject: [PATCH 007/109] fix: handle negative indices when deleting a
 changelog entry

Lines associated with the deleted item were handed over to a wrong neighbour.
---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 506a6f4..3f45575 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -257,7 +257,7 @@ class Changelog(UserList[ChangelogEntry]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "Changelog":
         return copy.copy(self)
-- 
2.43.0


From ebe6993fbca730d62a7f364b65f39800cb0ab908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 008/109] fix: preserve preceding lines when deleting a tag by
 name

---
 specfile/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 43ef462..d6347f1 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -419,7 +419,7 @@ class Tags(UserList[Tag]):
         if name not in self:
             return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            self.__delitem__(self.find(name))
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From 479e3490a06ed16eb7941f82a4c1befaefc1a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:11 +0000
Subject: [PATCH 009/109] fix: preserve preceding lines when deleting a macro
 definition by name

---
 specfile/macro_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 00bd6a5..5a03cb1 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -207,9 +207,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
 
     def __delattr__(self, name: str) -> None:
         if name not in self:
-            return super().__getattribute__(name)
+            return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            self.__delitem__(self.find(name))
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From 9c974a9dffb15f6ef031ecb91a2ed62a70ee9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:56 +0000
Subject: [PATCH 010/109] fix: preserve preceding lines when deleting a
 sourcelist entry

---
 specfile/sourcelist.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 7eea32a..9fdad9f 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import copy
-from typing import TYPE_CHECKING, Any, Dict, List, Optional, overload
+from typing import TYPE_CHECKING, Any, Dict, List, Optional, Union, overload
 
 from specfile.conditions import process_conditions
 from specfile.formatter import formatted
@@ -121,6 +121,23 @@ class Sourcelist(UserList[SourcelistEntry]):
         else:
             return self.data[i]
 
+    def __delitem__(self, i: Union[SupportsIndex, slice]) -> None:
+        def delete(index):
+            preceding_lines = self.data[index].comments._preceding_lines[:]
+            del self.data[index]
+            # preserve preceding lines of the deleted entry
+            if index < len(self.data):
+                lines = self.data[index].comments._preceding_lines
+            else:
+                lines = self._remainder
+            lines[0:0] = preceding_lines
+
+        if isinstance(i, slice):
+            for index in reversed(range(len(self.data))[i]):
+                delete(index)
+        else:
+            delete(range(len(self.data))[i])
+
     def copy(self) -> "Sourcelist":
         return copy.copy(self)
 
-- 
2.43.0


From a6de55038a3d5ad258cb4a795c111e93f8015280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:01 +0000
Subject: [PATCH 011/109] fix: do not treat conditions in %sourcelist and
 %patchlist as entries

---
 specfile/sourcelist.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 9fdad9f..8f534c9 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import copy
+import re
 from typing import TYPE_CHECKING, Any, Dict, List, Optional, Union, overload
 
 from specfile.conditions import process_conditions
@@ -157,10 +158,16 @@ class Sourcelist(UserList[SourcelistEntry]):
         """
         macro_definitions = MacroDefinitions.parse(list(section))
         lines = process_conditions(list(section), macro_definitions, context)
+        condition_regex = re.compile(
+            r"^\s*%((el)?if(n?(arch|os))?|endif|else)(\s|$)"
+        )
         data = []
         buffer: List[str] = []
+        continued_condition = False
         for line, valid in lines:
-            if line and not line.lstrip().startswith("#"):
+            is_condition = continued_condition or bool(condition_regex.match(line))
+            continued_condition = is_condition and line.endswith("\\")
+            if line and not is_condition and not line.lstrip().startswith("#"):
                 data.append(
                     SourcelistEntry(line, Comments.parse(buffer), valid, context)
                 )
-- 
2.43.0


From a24b9f890667f7bd6f417da8bea9e5d2c3dc5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 012/109] fix: do not treat whitespace-only lines in
 %sourcelist and %patchlist as entries

---
 specfile/sourcelist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 8f534c9..abc72cf 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -167,7 +167,7 @@ class Sourcelist(UserList[SourcelistEntry]):
         for line, valid in lines:
             is_condition = continued_condition or bool(condition_regex.match(line))
             continued_condition = is_condition and line.endswith("\\")
-            if line and not is_condition and not line.lstrip().startswith("#"):
+            if line.strip() and not is_condition and not line.lstrip().startswith("#"):
                 data.append(
                     SourcelistEntry(line, Comments.parse(buffer), valid, context)
                 )
-- 
2.43.0


From c7bd074c03d5d6b0f81cdf668bef4cd60c870e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 013/109] fix: number implicitly numbered sources and patches
 the way RPM does

The number following the highest one used so far is assigned, and numbering
continues across all %sourcelist/%patchlist sections.
---
 specfile/sources.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index a4c2bf0..6dbfd55 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -366,7 +366,8 @@ class Sources(collections.abc.MutableSequence):
                 ts = self.tag_class(tag, last_number)
             elif numbered_pattern.match(tag.normalized_name):
                 ts = self.tag_class(tag)
-                last_number = ts.number
+                # RPM continues from the highest number used so far
+                last_number = max(last_number, ts.number)
             else:
                 continue
             result.append((ts, self._tags, i))
@@ -385,12 +386,12 @@ class Sources(collections.abc.MutableSequence):
         result = cast(
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
-        last_number = result[-1][0].number if result else -1
-        result.extend(
-            (self.list_class(sl[i], last_number + 1 + i), sl, i)
-            for sl in self._sourcelists
-            for i in range(len(sl))
-        )
+        # RPM continues from the highest number used so far
+        last_number = max((source.number for source, _, _ in result), default=-1)
+        for sl in self._sourcelists:
+            for i in range(len(sl)):
+                last_number += 1
+                result.append((self.list_class(sl[i], last_number), sl, i))
         return result
 
     def _detect_implicit_numbering(self) -> bool:
-- 
2.43.0


From 5f3484bcdd01a1348cbc3d4c7ec7f9d1e3f70b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:47 +0000
Subject: [PATCH 014/109] fix: consider an empty string in a condition false,
 as RPM does

---
 specfile/conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 77f14ab..4e9d32e 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -47,7 +47,8 @@ def resolve_expression(
         try:
             return int(result) != 0
         except ValueError:
-            return True
+            # non-empty string is true, empty string is false
+            return bool(result)
     elif keyword.endswith("arch"):
         target_cpu = expand("%{_target_cpu}")
         match = any(t for t in expand(expression).split() if t == target_cpu)
-- 
2.43.0


From ed0fd8a5ee096c1200001c3590cc3f8dcd907471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 015/109] fix: compare architectures and OSes in conditions
 case-insensitively, as RPM does

---
 specfile/conditions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 4e9d32e..4d9971e 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -50,12 +50,12 @@ def resolve_expression(
             # non-empty string is true, empty string is false
             return bool(result)
     elif keyword.endswith("arch"):
-        target_cpu = expand("%{_target_cpu}")
-        match = any(t for t in expand(expression).split() if t == target_cpu)
+        target_cpu = expand("%{_target_cpu}").lower()
+        match = any(t for t in expand(expression).split() if t.lower() == target_cpu)
         return not match if keyword == "%ifnarch" else match
     elif keyword.endswith("os"):
-        target_os = expand("%{_target_os}")
-        match = any(t for t in expand(expression).split() if t == target_os)
+        target_os = expand("%{_target_os}").lower()
+        match = any(t for t in expand(expression).split() if t.lower() == target_os)
         return not match if keyword == "%ifnos" else match
     return False
 
-- 
2.43.0


From b9181fd10f3cb327857a5002eb6dfd2a03450107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 016/109] fix: do not consider %else valid if an earlier %if
 was true and %elif false

---
 specfile/conditions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 4d9971e..d13780e 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -113,6 +113,8 @@ def process_conditions(
     )
     result = []
     branches = [True]
+    # whether any branch of the respective condition has been true so far
+    fulfilled = [True]
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
@@ -133,10 +135,10 @@ def process_conditions(
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
+            fulfilled.pop()
         elif keyword.startswith("%el"):
             result.append((line, branches[-2]))
-            if branches[-2]:
-                branches[-1] = not branches[-1]
+            branches[-1] = branches[-2] and not fulfilled[-1]
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
@@ -155,6 +157,8 @@ def process_conditions(
             )
             if keyword.startswith("%el"):
                 branches[-1] = branch
+                fulfilled[-1] = fulfilled[-1] or branch
             else:
                 branches.append(branch)
+                fulfilled.append(branch)
     return result
-- 
2.43.0


From ffaa73bb438813c17a3003f3ce7c93e196aa6cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 017/109] fix: do not fail on conditions that start in a
 preceding section

---
 specfile/conditions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index d13780e..357caac 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -132,6 +132,10 @@ def process_conditions(
             result.append((line, branches[-1]))
             continue
         keyword = m.group("kwd")
+        if not keyword.startswith("%if") and len(branches) < 2:
+            # the condition starts before the processed lines
+            result.append((line, branches[-1]))
+            continue
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
-- 
2.43.0


From b99bb89ac6dee47ba725512f263df02848563b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:09 +0000
Subject: [PATCH 018/109] fix: do not expand lines in false branches of
 conditions

RPM doesn't do that either. Such expansion could have side effects, for example
undefine a macro or execute a shell command.
---
 specfile/conditions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 357caac..138e3f5 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -122,11 +122,14 @@ def process_conditions(
         if any(index in r for r in excluded_lines):
             result.append((line, branches[-1]))
             continue
-        try:
-            expanded_line = expand(line)
-        except RPMException:
-            # ignore failed expansion and use the original line
-            expanded_line = line
+        expanded_line = line
+        # RPM doesn't expand lines in false branches
+        if branches[-1]:
+            try:
+                expanded_line = expand(line)
+            except RPMException:
+                # ignore failed expansion and use the original line
+                pass
         m = condition_regex.match(expanded_line)
         if not m:
             result.append((line, branches[-1]))
-- 
2.43.0


From 8bca877aaab66a5e16fae20fc45fd2ddb378f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 019/109] fix: make hashes of EVR, NEVR and NEVRA consistent
 with equality

---
 specfile/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 4ab2368..a77cc6d 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -24,8 +24,16 @@ class EVR(collections.abc.Hashable):
         self.version = version
         self.release = release
 
+    def _evr_key(self) -> tuple:
+        # objects that are equal according to RPM have to have the same key; RPM compares
+        # only alphanumeric segments, tildes and carets and ignores leading zeros
+        return tuple(
+            tuple(s.lstrip("0") for s in re.findall(r"[0-9]+|[a-zA-Z]+|~|\^", label))
+            for label in self._rpm_evr_tuple()
+        )
+
     def _key(self) -> tuple:
-        return self.epoch, self.version, self.release
+        return self._evr_key()
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -96,7 +104,7 @@ class NEVR(EVR):
         super().__init__(epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release
+        return self.name, self._evr_key()
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -173,7 +181,7 @@ class NEVRA(NEVR):
         super().__init__(name=name, epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release, self.arch
+        return self.name, self._evr_key(), self.arch
 
     def __hash__(self) -> int:
         return hash(self._key())
-- 
2.43.0


From 5818d0385ff9fa0c7cdb51cef86b129d3b25cb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 020/109] fix: find macros following an escaped percent sign

The offset is relative to the start of the processed substring.
---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 1b57c26..b219a0c 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -250,7 +250,7 @@ class ValueParser:
                 end = value.index("%", start + offset)
                 try:
                     if value[end + 1] == "%":
-                        offset = end + 2
+                        offset = end + 2 - start
                         continue
                 except IndexError:
                     raise UnterminatedMacroException
-- 
2.43.0


From a631bb6f19b40811e4b9bd6df28706c42a6e2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 021/109] fix: ignore escaped brackets when looking for the end
 of a macro, as RPM does

---
 specfile/value_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index b219a0c..9b24e17 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -215,9 +215,12 @@ class ValueParser:
 
         def find_matching_parenthesis(index):
             level = 0
+            escaped = False
             for i in range(index, len(value)):
-                if value[i] == "\\":
-                    continue
+                if escaped:
+                    escaped = False
+                elif value[i] == "\\":
+                    escaped = True
                 elif value[i] == pairs[value[index]]:
                     level -= 1
                     if level <= 0:
-- 
2.43.0


From a1dff436a4af3e7bf9a56e0ce645ac0eae754117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:07 +0000
Subject: [PATCH 022/109] fix: parse %** as a single macro

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 9b24e17..487d5bd 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -239,7 +239,7 @@ class ValueParser:
                 i += 1
             while i < len(value) and (value[i].isalnum() or value[i] == "_"):
                 i += 1
-            if i + 1 < len(value) and value[i : i + 1] == "**":
+            if value[i : i + 2] == "**":
                 i += 2
             elif i < len(value) and value[i] in "*#":
                 i += 1
-- 
2.43.0


From 9696f720224c7a7ffe5eec4a177f7613202e6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 023/109] fix: preserve whitespace in macro substitutions
 enclosed in brackets

Also do not fail if there is no macro name.
---
 specfile/value_parser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 487d5bd..a900143 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -104,16 +104,15 @@ class EnclosedMacroSubstitution(Node):
             _, self.prefix, rest = tokens
         self.name: str
         self.args: List[str]
-        self.name, *self.args = rest.split()
+        self.name, *self.args = rest.split() or [""]
+        self._body = body
 
     @formatted
     def __repr__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"EnclosedMacroSubstitution({(self.prefix + self.name + args)!r})"
+        return f"EnclosedMacroSubstitution({self._body!r})"
 
     def __str__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"%{{{self.prefix}{self.name}{args}}}"
+        return f"%{{{self._body}}}"
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, self.__class__):
-- 
2.43.0


From af14d693a355a7a97881df24d338fa1be8bb48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:42 +0000
Subject: [PATCH 024/109] fix: do not treat a colon in macro arguments as a
 delimiter of macro body

---
 specfile/value_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index a900143..495f48b 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -271,7 +271,8 @@ class ValueParser:
             elif value[start + 1] == "[":
                 result.append(ExpressionExpansion(value[start + 2 : end - 1]))
             elif value[start + 1] == "{":
-                if ":" in value[start:end]:
+                # name of the macro ends with the first space or colon
+                if re.match(r"[^ :]*:", value[start + 2 : end - 1]):
                     condition, body = value[start + 2 : end - 1].split(":", maxsplit=1)
                     tokens = re.split(r"^([?!]*)", condition, maxsplit=1)
                     prefix = tokens[0 if len(tokens) == 1 else 1]
-- 
2.43.0


From e5a0a27e638b8e94c76aacb0dd293f23ea0000fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 025/109] fix: do not skip parsing of a copied SpecParser that
 reused an id

The copy can be assigned the id of a previously deleted instance and then parsing
was skipped, leaving the copy without a parsed spec.
---
 specfile/spec_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 0dfb2fc..b4bdb2a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -376,7 +376,9 @@ class SpecParser:
         parse_hash = hashlib.sha256(
             pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         ).digest()
-        if parse_hash == SpecParser._last_parse_hash:
+        # this could be a copy that has been assigned the same id as a previously deleted
+        # instance, do not skip parsing if there is no parsed spec
+        if parse_hash == SpecParser._last_parse_hash and self.spec is not None:
             # none of the input parameters has changed, no need to parse again
             return
         if self.spec:
-- 
2.43.0


From ef5f46002e3a13fb5972273dad02b8ad5decf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 026/109] fix: keep SpecParser consistent when parsing fails
 for any reason

An exception other than RPMException left the instance without the spec attribute.
---
 specfile/spec_parser.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index b4bdb2a..23f3da6 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -384,15 +384,9 @@ class SpecParser:
         if self.spec:
             # workaround RPM lua tables feature/bug, see above for details
             del self.spec
-        try:
-            try:
-                self.spec, self.tainted = self._do_parse(content, extra_macros)
-            except Exception:
-                SpecParser._last_parse_hash = None
-                raise
-            else:
-                SpecParser._last_parse_hash = parse_hash
-        except RPMException:
-            self.spec = None
-            self.tainted = False
-            raise
+        # do not leave the instance in an inconsistent state in case of a failure
+        self.spec = None
+        self.tainted = False
+        SpecParser._last_parse_hash = None
+        self.spec, self.tainted = self._do_parse(content, extra_macros)
+        SpecParser._last_parse_hash = parse_hash
-- 
2.43.0


From 3f0be129acc356bbe2b0c62ec8d5733f397c1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 027/109] fix: parse again after another SpecParser instance
 has been destroyed

Destroying a rpm.spec instance destroys global RPM lua tables, expansion of
%sources, %patches etc. failed or returned nothing afterwards.
---
 specfile/spec_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 23f3da6..c59bb5b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -62,6 +62,13 @@ class SpecParser:
         # improperly skipped
         SpecParser._last_parse_hash = None
 
+    def __del__(self) -> None:
+        if getattr(self, "spec", None) is not None:
+            # destroying a rpm.spec instance destroys also global RPM lua tables (see
+            # `_do_parse()`) that could belong to another `SpecParser` instance,
+            # make sure it parses again
+            type(self)._last_parse_hash = None
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SpecParser):
             return NotImplemented
-- 
2.43.0


From 6ebe7c048acdc543db659c7940a8a416a5a6ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:12 +0000
Subject: [PATCH 028/109] fix: do not fail to parse spec files that are not
 valid UTF-8

The content is read with surrogateescape error handler.
---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index c59bb5b..a43552d 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -232,7 +232,7 @@ class SpecParser:
                     Macros.define(name, value)
             Macros.define("_sourcedir", str(self.sourcedir))
             with tempfile.NamedTemporaryFile() as tmp:
-                tmp.write(content.encode())
+                tmp.write(content.encode("utf8", "surrogateescape"))
                 tmp.flush()
                 try:
                     with self._sanitize_environment():
-- 
2.43.0


From cde65ec798c59aa9679b1432a81639601f6d10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:17 +0000
Subject: [PATCH 029/109] fix: raise RPMException if a missing file is in a
 nonexistent directory

With force_parse, FileNotFoundError was raised instead.
---
 specfile/spec_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index a43552d..c14d9ff 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -241,6 +241,13 @@ class SpecParser:
                 except ValueError as e:
                     raise RPMException(stderr=stderr) from e
 
+        def is_in_sourcedir(path):
+            try:
+                return path.parent.samefile(self.sourcedir)
+            except OSError:
+                # the directory doesn't exist or is not accessible
+                return False
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -263,7 +270,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(ref))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
@@ -285,7 +292,7 @@ class SpecParser:
                 # even though it failed, populated the macro context
                 source = Path(Macros.expand(arg))
                 # ignore files outside of sourcedir
-                if source.parent.samefile(self.sourcedir):
+                if is_in_sourcedir(source):
                     sources.add(source.name)
             return sources
 
@@ -298,7 +305,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(node.body))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
-- 
2.43.0


From 3b86895090d3c0fd61e818880389b9a71940ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:22 +0000
Subject: [PATCH 030/109] fix: raise RPMException rather than
 UnterminatedMacroException with force_parse

---
 specfile/spec_parser.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index c14d9ff..ae6f93a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -15,7 +15,7 @@ from typing import Any, Dict, Generator, List, Optional, Set, Tuple
 import rpm
 
 from specfile.context_management import capture_stderr
-from specfile.exceptions import RPMException
+from specfile.exceptions import RPMException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.macros import Macros
 from specfile.sections import Section
@@ -261,7 +261,12 @@ class SpecParser:
                     # break parsing, we can skip this tag
                     continue
                 refs = []
-                for node in ValueParser.flatten(ValueParser.parse(tag.value)):
+                try:
+                    nodes = ValueParser.parse(tag.value)
+                except UnterminatedMacroException:
+                    # ignore unparseable values
+                    continue
+                for node in ValueParser.flatten(nodes):
                     if isinstance(node, ShellExpansion):
                         for m in source_ref_regex.finditer(node.body):
                             refs.append(m.group(0))
@@ -299,7 +304,12 @@ class SpecParser:
         def collect_loaded_sources(content):
             # collect sources loaded using %{load:...}
             sources = set()
-            for node in ValueParser.flatten(ValueParser.parse(content)):
+            try:
+                nodes = ValueParser.parse(content)
+            except UnterminatedMacroException:
+                # ignore unparseable content
+                return sources
+            for node in ValueParser.flatten(nodes):
                 if isinstance(node, BuiltinMacro) and node.name == "load":
                     # we can expand macros here because the first non-build parse,
                     # even though it failed, populated the macro context
-- 
2.43.0


From 93ba3442bfca613bd5640abed92c208f4d6bfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:28 +0000
Subject: [PATCH 031/109] fix: do not remove dangling symlinks to sources

A dummy source was written through the symlink, then the symlink was removed
and the dummy file remained in its place.
---
 specfile/spec_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index ae6f93a..eb04480 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -146,7 +146,8 @@ class SpecParser:
             filename = get_filename_from_location(source)
             if not filename:
                 continue
-            path = self.sourcedir / filename
+            # follow dangling symlinks so that they are not removed together with dummy sources
+            path = Path(os.path.realpath(self.sourcedir / filename))
             if path.exists():
                 continue
             for ext, magic in SIGNATURES:
@@ -161,7 +162,7 @@ class SpecParser:
             filename = get_filename_from_location(source)
             if not filename:
                 continue
-            path = self.sourcedir / filename
+            path = Path(os.path.realpath(self.sourcedir / filename))
             if path.exists():
                 continue
             try:
-- 
2.43.0


From bc389f0f8de0af0b96325079d71ee38d04dbe16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:56 +0000
Subject: [PATCH 032/109] fix: always remove dummy sources

Do not leave them behind if creating one of them or removing another one fails.
---
 specfile/spec_parser.py | 64 ++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index eb04480..221957e 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -114,6 +114,10 @@ class SpecParser:
             List of paths to each created dummy source.
         """
 
+        def remove(path):
+            with contextlib.suppress(OSError):
+                path.unlink()
+
         def write_magic(path, magic):
             # create a file with a signature matching what RPM expects for this particular
             # file type; this affects how %setup and %patch macros are expanded
@@ -127,6 +131,7 @@ class SpecParser:
                     path.write_bytes(MAGIC_LENGTH * b"\x00")
             except (FileNotFoundError, OSError, PermissionError):
                 logger.warning(f"Failed to create a dummy source: {path}")
+                remove(path)
                 return False
             return True
 
@@ -142,40 +147,41 @@ class SpecParser:
             (".7z", b"7z\xbc\xaf\x27\x1c"),
         ]
         dummy_sources = []
-        for source in sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            # follow dangling symlinks so that they are not removed together with dummy sources
-            path = Path(os.path.realpath(self.sourcedir / filename))
-            if path.exists():
-                continue
-            for ext, magic in SIGNATURES:
-                if filename.endswith(ext):
-                    if write_magic(path, magic):
+        try:
+            for source in sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                # follow dangling symlinks so that they are not removed together with dummy sources
+                path = Path(os.path.realpath(self.sourcedir / filename))
+                if path.exists() or path.is_symlink():
+                    continue
+                for ext, magic in SIGNATURES:
+                    if filename.endswith(ext):
+                        if write_magic(path, magic):
+                            dummy_sources.append(path)
+                        break
+                else:
+                    if write_magic(path, None):
                         dummy_sources.append(path)
-                    break
-            else:
-                if write_magic(path, None):
+            for source in non_empty_sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = Path(os.path.realpath(self.sourcedir / filename))
+                if path.exists() or path.is_symlink():
+                    continue
+                try:
+                    path.write_text("DUMMY")
+                except (FileNotFoundError, OSError, PermissionError):
+                    logger.warning(f"Failed to create a dummy source: {path}")
+                    remove(path)
+                else:
                     dummy_sources.append(path)
-        for source in non_empty_sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = Path(os.path.realpath(self.sourcedir / filename))
-            if path.exists():
-                continue
-            try:
-                path.write_text("DUMMY")
-            except (FileNotFoundError, OSError, PermissionError):
-                logger.warning(f"Failed to create a dummy source: {path}")
-            else:
-                dummy_sources.append(path)
-        try:
             yield dummy_sources
         finally:
             for path in dummy_sources:
-                path.unlink()
+                remove(path)
 
     @contextlib.contextmanager
     def _sanitize_environment(self) -> Generator[os._Environ, None, None]:
-- 
2.43.0


From 37a886426d83580091ad271bd8cd59b1af05ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:23 +0000
Subject: [PATCH 033/109] fix: do not split lines on characters other than
 newline

Form feed, vertical tab, NEL, line separator and some others were replaced with
a newline on save. Also do not fail with IndexError on an empty file.
---
 specfile/specfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 92b8d8f..f05989a 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -122,7 +122,12 @@ class Specfile:
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
         content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content[-1] == "\n"
+        # do not use `splitlines()`, it doesn't split only on newlines
+        lines = content.split("\n")
+        trailing_newline = content.endswith("\n")
+        if trailing_newline:
+            lines.pop()
+        return lines, trailing_newline
 
     @property
     def path(self) -> Path:
-- 
2.43.0


From 939ab75e2aac50f2544d3a2c0bff7aae2bf5749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 034/109] fix: do not split section lines on characters other
 than newline

---
 specfile/sections.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 7b5ae98..216a6a1 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -134,7 +134,11 @@ class Section(collections.UserList):
     def get_raw_data(self) -> List[str]:
         if self.normalized_id == PREAMBLE:
             return self.data
-        return str(self).splitlines()
+        # do not use `splitlines()`, it doesn't split only on newlines
+        lines = str(self).split("\n")
+        if not lines[-1]:
+            lines.pop()
+        return lines
 
 
 class Sections(UserList[Section]):
-- 
2.43.0


From 111d251d51348ee70c42cb92791b636a80a35e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 035/109] fix: do not consider trailing whitespace part of
 section ID

Sections with trailing whitespace on the first line couldn't be found by their ID,
for example such changelog was ignored.
---
 specfile/sections.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 216a6a1..0285122 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -245,7 +245,9 @@ class Sections(UserList[Section]):
 
         def split_id(line):
             content = []
-            separator = "\n"
+            # trailing whitespace is not part of section ID
+            line, whitespace = re.match(r"^(.*?)(\s*)$", line, re.DOTALL).groups()
+            separator = whitespace + "\n"
             tokens = re.split(r"(\s+)", line)
             if len(tokens) > 2 and tokens[-1].startswith("%"):
                 # if the last token after macro expansion starts with a newline,
@@ -256,7 +258,7 @@ class Sections(UserList[Section]):
                     pass
                 else:
                     if expanded.startswith("\n"):
-                        content = [tokens.pop()]
+                        content = [tokens.pop() + whitespace]
                         separator = tokens.pop()
             if len(tokens) > 2:
                 name = tokens[0]
-- 
2.43.0


From 8818dd5e2c37608c7a2794f2305f95046ab917c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 036/109] fix: fix position of tags following multi-line or
 duplicate tags

---
 specfile/tags.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index d6347f1..d1b476f 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -297,9 +297,14 @@ class Tag:
         Returns:
             Position expressed as line number (starting from 0).
         """
+        index = next(
+            (i for i, t in enumerate(container) if t is self), None
+        )  # there could be multiple equal tags
+        if index is None:
+            index = container.index(self)
         return sum(
-            len(t.comments.get_raw_data()) + 1
-            for t in container[: container.index(self)]
+            len(t.comments.get_raw_data()) + len(t.value.split("\n"))
+            for t in container[:index]
         ) + len(self.comments.get_raw_data())
 
 
-- 
2.43.0


From e3d01a7fcd17a71c9e0d2012bfa51b47402ad860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:06 +0000
Subject: [PATCH 037/109] fix: fix position of duplicate macro definitions

---
 specfile/macro_definitions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 5a03cb1..35cdaba 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -126,9 +126,14 @@ class MacroDefinition:
         Returns:
             Position expressed as line number (starting from 0).
         """
-        return sum(
-            len(md.get_raw_data()) for md in container[: container.index(self)]
-        ) + len(self._preceding_lines)
+        index = next(
+            (i for i, md in enumerate(container) if md is self), None
+        )  # there could be multiple equal macro definitions
+        if index is None:
+            index = container.index(self)
+        return sum(len(md.get_raw_data()) for md in container[:index]) + len(
+            self._preceding_lines
+        )
 
     def get_raw_data(self) -> List[str]:
         result = self._preceding_lines.copy()
-- 
2.43.0


From 7e26b86334667de7bcf3c660333e94a856574b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 038/109] fix: reject tag names that only start with a valid
 name

---
 specfile/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index d1b476f..aa86984 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -232,7 +232,7 @@ class Tag:
         name_regexes = [
             re.compile(get_tag_name_regex(t), re.IGNORECASE) for t in TAG_NAMES
         ]
-        if not name or not any(r.match(name) for r in name_regexes):
+        if not name or not any(r.fullmatch(name) for r in name_regexes):
             raise ValueError(f"Invalid tag name: '{name}'")
         self.name = name
         self.value = value
-- 
2.43.0


From 1127fe6659e3a17f31d7d5984a1c33751a6da1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:23 +0000
Subject: [PATCH 039/109] fix: do not place the first patch after a
 SourceLicense tag

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 6dbfd55..f7581f5 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -682,7 +682,7 @@ class Patches(Sources):
             index, source = [
                 (i, Sources.tag_class(t))
                 for i, t in enumerate(self._tags)
-                if source_pattern.match(t.normalized_name)
+                if source_pattern.fullmatch(t.normalized_name)
             ][-1]
         except IndexError:
             return super()._get_initial_tag_setup(number)
-- 
2.43.0


From b74e9674dff5268d20d10946c7f7c3caa0be5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:28 +0000
Subject: [PATCH 040/109] fix: never lose colon when adjusting separator of a
 new source tag

---
 specfile/sources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index f7581f5..4628f0c 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -443,7 +443,10 @@ class Sources(collections.abc.MutableSequence):
         diff = len(reference._tag.name) - len(name)
         if diff >= 0:
             return name, reference._tag._separator + " " * diff
-        return name, reference._tag._separator[:diff] or ":"
+        separator = reference._tag._separator[:diff]
+        if ":" not in separator:
+            separator = reference._tag._separator.rstrip()
+        return name, separator
 
     def _get_initial_tag_setup(self, number: int = 0) -> Tuple[int, str, str]:
         """
-- 
2.43.0


From 05f3bfb1665cf3cd581089537a02d9be3d28d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 041/109] fix: never assign a number that is already taken to a
 source or patch

Only adjacent duplicates were eliminated, so adding a source or patch if they are
not ordered by number (or inserting at a negative index) could result in
duplicate numbers, which RPM rejects.
---
 specfile/sources.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 4628f0c..fed11a4 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -5,7 +5,17 @@ import collections
 import re
 import urllib.parse
 from abc import ABC, abstractmethod
-from typing import TYPE_CHECKING, Iterable, List, Optional, Tuple, Union, cast, overload
+from typing import (
+    TYPE_CHECKING,
+    Iterable,
+    List,
+    Optional,
+    Set,
+    Tuple,
+    Union,
+    cast,
+    overload,
+)
 
 from specfile.exceptions import DuplicateSourceException
 from specfile.formatter import formatted
@@ -491,18 +501,20 @@ class Sources(collections.abc.MutableSequence):
         Args:
             start: Starting index, defaults to the first source tag.
         """
-        tags = self._get_tags()
-        if not tags:
-            return
-        tag_sources = list(zip(*tags[start:]))[0]
-        for ts0, ts1 in zip(tag_sources, tag_sources[1:]):
-            if ts1.number == ts0.number:
-                if ts1._number is not None:
-                    ts1._number = ts0.number + 1
-                else:
-                    ts1._tag.name, ts1._tag._separator = self._get_tag_format(
-                        ts1, ts0.number + 1
-                    )
+        used_numbers: Set[int] = set()
+        previous_number = -1
+        for i, (ts, _, _) in enumerate(self._get_tags()):
+            if ts._number is not None:
+                number = max(used_numbers, default=-1) + 1
+            else:
+                number = ts.number
+                if i > start and number in used_numbers:
+                    number = previous_number + 1
+                    while number in used_numbers:
+                        number += 1
+                    ts._tag.name, ts._tag._separator = self._get_tag_format(ts, number)
+            used_numbers.add(number)
+            previous_number = number
 
     def insert(self, i: int, location: str) -> None:
         """
@@ -521,11 +533,13 @@ class Sources(collections.abc.MutableSequence):
         items = self._get_items()
         if i > len(items):
             i = len(items)
+        elif i < 0:
+            i = max(i + len(items), 0)
         if items:
             if i == len(items):
                 source, container, index = items[-1]
                 index += 1
-                number = source.number + 1
+                number = max(s.number for s, _, _ in items) + 1
             else:
                 source, container, index = items[i]
                 number = source.number
-- 
2.43.0


From 5c31087a09d9281001febe6b1aed5f11c776e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:39 +0000
Subject: [PATCH 042/109] fix: do not insert a tag between nested %endif lines

The new tag was still a part of the outer condition block. Also recognize
indented %endif.
---
 specfile/tags.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index aa86984..bd0ad56 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -474,9 +474,16 @@ class Tags(UserList[Tag]):
             lines = self._remainder
         self.data.insert(i, item)
         # do not make the new tag part of a condition block (in case there is one)
-        index = next(
-            (i for i, line in enumerate(lines) if line.startswith("%endif")), -1
-        )
+        index = -1
+        level = 0
+        for n, line in enumerate(lines):
+            if line.lstrip().startswith("%if"):
+                level += 1
+            elif line.lstrip().startswith("%endif"):
+                level -= 1
+                if level < 0 or index < 0:
+                    index = n
+                level = max(level, 0)
         if index >= 0:
             item.comments._preceding_lines[0:0] = lines[: index + 1]
             del lines[: index + 1]
-- 
2.43.0


From fd4fbd392af0e6c8528aaad7f60702e215502bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:45 +0000
Subject: [PATCH 043/109] fix: do not append a tag into a condition block

---
 specfile/tags.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index bd0ad56..7a67523 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -488,6 +488,9 @@ class Tags(UserList[Tag]):
             item.comments._preceding_lines[0:0] = lines[: index + 1]
             del lines[: index + 1]
 
+    def append(self, item: Tag) -> None:
+        self.insert(len(self.data), item)
+
     @classmethod
     def parse(cls, section: Section, context: Optional["Specfile"] = None) -> "Tags":
         """
-- 
2.43.0


From 94ce2b9a31468ec55950c4e2f90b7b26c2290073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:12 +0000
Subject: [PATCH 044/109] fix: do not bump release in macro definitions that
 have no effect

---
 specfile/specfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index f05989a..a95fd29 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1036,6 +1036,8 @@ class Specfile:
 
         with self.macro_definitions() as macro_definitions:
             for md in macro_definitions:
+                if md.commented_out or not md.valid:
+                    continue
                 if md.name.lower() in ["release", "baserelease"]:
                     md.body = self._bump_release_string(md.body)
                     return
-- 
2.43.0


From a028b8633fd8eb74c60e79fc23033ed0eb8f4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:18 +0000
Subject: [PATCH 045/109] fix: make commented_out effective with
 CommentOutStyle.OTHER

It wasn't possible to uncomment a macro definition commented out using this style
or to comment one out.
---
 specfile/macro_definitions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 35cdaba..326a508 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -107,14 +107,20 @@ class MacroDefinition:
     def __str__(self) -> str:
         ws = self._whitespace
         dnl = ""
+        prefix = self._prefix
         sc = "%"
         if self.commented_out:
             if self.comment_out_style is CommentOutStyle.DNL:
                 dnl = "%dnl"
             elif self.comment_out_style is CommentOutStyle.HASH:
                 sc = "#"
+        if self.comment_out_style is CommentOutStyle.OTHER:
+            if not self.commented_out:
+                prefix = ""
+            elif "#" not in prefix:
+                prefix = "#%"
         macro = "global" if self.is_global else "define"
-        return f"{ws[0]}{dnl}{self._prefix}{sc}{macro}{ws[1]}{self.name}{ws[2]}{self.body}{ws[3]}"
+        return f"{ws[0]}{dnl}{prefix}{sc}{macro}{ws[1]}{self.name}{ws[2]}{self.body}{ws[3]}"
 
     def get_position(self, container: "MacroDefinitions") -> int:
         """
@@ -139,16 +145,22 @@ class MacroDefinition:
         result = self._preceding_lines.copy()
         ws = self._whitespace
         dnl = ""
+        prefix = self._prefix
         sc = "%"
         if self.commented_out:
             if self.comment_out_style is CommentOutStyle.DNL:
                 dnl = "%dnl"
             elif self.comment_out_style is CommentOutStyle.HASH:
                 sc = "#"
+        if self.comment_out_style is CommentOutStyle.OTHER:
+            if not self.commented_out:
+                prefix = ""
+            elif "#" not in prefix:
+                prefix = "#%"
         macro = "global" if self.is_global else "define"
         body = (self.body + ws[3]).split("\n")
         result.append(
-            f"{ws[0]}{dnl}{self._prefix}{sc}{macro}{ws[1]}{self.name}{ws[2]}{body[0]}"
+            f"{ws[0]}{dnl}{prefix}{sc}{macro}{ws[1]}{self.name}{ws[2]}{body[0]}"
         )
         result.extend(body[1:])
         return result
-- 
2.43.0


From 6bb56e17af924743124956b471556ea7cd70c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:23 +0000
Subject: [PATCH 046/109] fix: do not fail on %prep lines that mention a macro
 but can't be tokenized

---
 specfile/prep.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index 77b270c..95a223e 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -7,6 +7,7 @@ import re
 from abc import ABC
 from typing import Any, Dict, List, Optional, Union, cast, overload
 
+from specfile.exceptions import OptionsException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.options import Options
 from specfile.sections import Section
@@ -392,11 +393,13 @@ class Prep(collections.abc.Container):
                 if not klass:
                     buffer.append(original_line)
                     continue
-                options = Options(
-                    Options.tokenize(option_string),
-                    klass.OPTSTRING,
-                    klass.DEFAULTS,
-                )
+                try:
+                    tokens = Options.tokenize(option_string)
+                except (OptionsException, UnterminatedMacroException):
+                    # this can't be a macro with options, it could be e.g. a comment
+                    buffer.append(original_line)
+                    continue
+                options = Options(tokens, klass.OPTSTRING, klass.DEFAULTS)
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-- 
2.43.0


From dcdc33c105aa1197c12442b3ff5be0a9bf27183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:09 +0000
Subject: [PATCH 047/109] fix: fix deleting of flags from option strings

Only the preceding whitespace was deleted.
---
 specfile/options.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index a6d7d8c..688c397 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -396,19 +396,17 @@ class Options(collections.abc.MutableMapping):
         i, j = self._find_option(name)
         if i is None:
             return
+        if j is None:
+            j = i
         if i == 0:
             if (
-                j is not None
-                and j + 1 < len(self._tokens)
+                j + 1 < len(self._tokens)
                 and self._tokens[j + 1].type == TokenType.WHITESPACE
             ):
                 j += 1
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
-        if j is not None and j > i:
-            del self._tokens[i : j + 1]
-        else:
-            del self._tokens[i]
+        del self._tokens[i : j + 1]
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From eb4bae74f8e5dccf2c4cb2e37f1616b988567c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:14 +0000
Subject: [PATCH 048/109] fix: separate a positional argument inserted at the
 beginning of an option string

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 688c397..a4023c6 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -205,6 +205,8 @@ class Positionals(collections.abc.MutableSequence):
         )
         if index > 0:
             self._options._tokens.insert(index, Token(TokenType.WHITESPACE, " "))
+        elif len(self._options._tokens) > 1:
+            self._options._tokens.insert(1, Token(TokenType.WHITESPACE, " "))
 
 
 class Options(collections.abc.MutableMapping):
-- 
2.43.0


From 4b577151f7d815b4a8f265869ae86b0b2d259975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:19 +0000
Subject: [PATCH 049/109] fix: preserve literal text of unmodified option
 strings

Escapes and quotes (also those inside of macro expressions) were changed.
---
 specfile/options.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index a4023c6..db4f547 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -28,15 +28,29 @@ class Token(collections.abc.Hashable):
         value: Token value.
     """
 
-    def __init__(self, type: TokenType, value: str) -> None:
+    def __init__(
+        self, type: TokenType, value: str, literal: Optional[str] = None
+    ) -> None:
+        """
+        Initializes a token object.
+
+        Args:
+            type: Token type.
+            value: Token value.
+            literal: Literal text the token was created from. It is preserved
+                as long as the token is not modified.
+        """
         self.type = type
         self.value = value
+        self._literal = (type, value, literal) if literal is not None else None
 
     @formatted
     def __repr__(self) -> str:
         return f"Token({self.type!r}, {self.value!r})"
 
     def __str__(self) -> str:
+        if self._literal is not None and self._literal[:2] == self._key():
+            return self._literal[2]
         if self.type == TokenType.WHITESPACE:
             return self.value
         elif self.type == TokenType.QUOTED:
@@ -475,6 +489,7 @@ class Options(collections.abc.MutableMapping):
         """
         result: List[Token] = []
         token = ""
+        literal = ""
         quote = None
         inp = []
         for node in ValueParser.parse(option_string):
@@ -494,24 +509,27 @@ class Options(collections.abc.MutableMapping):
                                 else TokenType.DOUBLE_QUOTED
                             ),
                             token,
+                            f"{quote}{literal}{quote}",
                         )
                     )
-                    token = ""
+                    token = literal = ""
                 quote = None
                 continue
             if quote:
                 if c == "\\":
+                    literal += c
                     if not inp:
                         raise OptionsException("No escaped character")
                     c = inp.pop(0)
                     if c != quote:
                         token += "\\"
                 token += c
+                literal += c
                 continue
             if c.isspace():
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
-                    token = ""
+                    result.append(Token(TokenType.DEFAULT, token, literal))
+                    token = literal = ""
                 whitespace = c
                 while inp:
                     c = inp.pop(0)
@@ -526,17 +544,19 @@ class Options(collections.abc.MutableMapping):
                 continue
             if c in ('"', "'"):
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
-                    token = ""
+                    result.append(Token(TokenType.DEFAULT, token, literal))
+                    token = literal = ""
                 quote = c
                 continue
             if c == "\\":
+                literal += c
                 if not inp:
                     raise OptionsException("No escaped character")
                 c = inp.pop(0)
             token += c
+            literal += c
         if quote:
             raise OptionsException("No closing quotation")
         if token:
-            result.append(Token(TokenType.DEFAULT, token))
+            result.append(Token(TokenType.DEFAULT, token, literal))
         return result
-- 
2.43.0


From 603ce0611c6e05cbcc5ff1a08317beed365a3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:25 +0000
Subject: [PATCH 050/109] fix: do not drop empty quoted arguments from option
 strings

---
 specfile/options.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index db4f547..8e4dd95 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -500,19 +500,18 @@ class Options(collections.abc.MutableMapping):
         while inp:
             c = inp.pop(0)
             if c == quote:
-                if token:
-                    result.append(
-                        Token(
-                            (
-                                TokenType.QUOTED
-                                if quote == "'"
-                                else TokenType.DOUBLE_QUOTED
-                            ),
-                            token,
-                            f"{quote}{literal}{quote}",
-                        )
+                result.append(
+                    Token(
+                        (
+                            TokenType.QUOTED
+                            if quote == "'"
+                            else TokenType.DOUBLE_QUOTED
+                        ),
+                        token,
+                        f"{quote}{literal}{quote}",
                     )
-                    token = literal = ""
+                )
+                token = literal = ""
                 quote = None
                 continue
             if quote:
-- 
2.43.0


From fab1512fba6f125f3440f18e5c71bd4ded68623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:30 +0000
Subject: [PATCH 051/109] fix: escape values in option strings properly

Backslashes have to be escaped, macro expressions must not be changed.
---
 specfile/options.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 8e4dd95..9a01ea5 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -7,7 +7,7 @@ import string
 from enum import Enum, auto
 from typing import Dict, Iterable, Iterator, List, Optional, Tuple, Union, overload
 
-from specfile.exceptions import OptionsException
+from specfile.exceptions import OptionsException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.value_parser import StringLiteral, ValueParser
 
@@ -55,14 +55,25 @@ class Token(collections.abc.Hashable):
             return self.value
         elif self.type == TokenType.QUOTED:
             # escape single quotes
-            value = self.value.replace("'", r"\'")
+            value = self._escape("'")
             return f"'{value}'"
         elif self.type == TokenType.DOUBLE_QUOTED:
             # escape double quotes
-            value = self.value.replace('"', r"\"")
+            value = self._escape('"')
             return f'"{value}"'
-        # escape quotes and whitespace
-        return re.sub(r"['\"\s]", r"\\\g<0>", self.value)
+        # escape backslashes, quotes and whitespace
+        return self._escape(r"[\\'\"\s]")
+
+    def _escape(self, pattern: str) -> str:
+        try:
+            nodes = ValueParser.parse(self.value)
+        except UnterminatedMacroException:
+            nodes = [StringLiteral(self.value)]
+        # leave macro expressions alone
+        return "".join(
+            re.sub(pattern, r"\\\g<0>", str(n)) if isinstance(n, StringLiteral) else str(n)
+            for n in nodes
+        )
 
     def _key(self) -> tuple:
         return self.type, self.value
@@ -330,8 +341,11 @@ class Options(collections.abc.MutableMapping):
 
     @staticmethod
     def _needs_quoting(value):
-        # if there is a whitespace, enquote the value rather than escaping it
-        return any(ws in str(value) for ws in string.whitespace)
+        # if there is a whitespace, enquote the value rather than escaping it,
+        # unless there is a backslash that could escape the closing quote
+        return "\\" not in str(value) and any(
+            ws in str(value) for ws in string.whitespace
+        )
 
     def __getattr__(self, name: str) -> Optional[Union[bool, int, str]]:
         if not self._valid_option(name):
-- 
2.43.0


From ab42f8c2166f85e5f2a4b848f0786c4d636c455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 052/109] fix: do not fail to format RPM errors that are not
 valid UTF-8

---
 specfile/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 4915e31..9f79a5c 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -17,10 +17,10 @@ class RPMException(SpecfileException):
 
     def __str__(self) -> str:
         for rline in self.stderr:
-            line = rline.decode().rstrip()
+            line = rline.decode(errors="replace").rstrip()
             if line.startswith("error:"):
                 return line.split("error: ")[1]
-        return "\n" + b"".join(self.stderr).decode()
+        return "\n" + b"".join(self.stderr).decode(errors="replace")
 
 
 class MacroRemovalException(SpecfileException):
-- 
2.43.0


From 22179504a775527236e01734c22b88a0d54acf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:40 +0000
Subject: [PATCH 053/109] fix: do not truncate RPM errors

---
 specfile/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 9f79a5c..042b90e 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -19,7 +19,7 @@ class RPMException(SpecfileException):
         for rline in self.stderr:
             line = rline.decode(errors="replace").rstrip()
             if line.startswith("error:"):
-                return line.split("error: ")[1]
+                return line.split("error: ", maxsplit=1)[1]
         return "\n" + b"".join(self.stderr).decode(errors="replace")
 
 
-- 
2.43.0


From a8606c735288f049597f44d607eaba739b844795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:54 +0000
Subject: [PATCH 054/109] fix: do not fail to access spec files that are not
 valid UTF-8

---
 specfile/macros.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index f3bf952..ae11fbe 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -128,7 +128,7 @@ class Macros:
         """
         with capture_stderr() as stderr:
             rpm.expandMacro("%dump")
-        return cls._parse([line.decode() for line in stderr])
+        return cls._parse([line.decode(errors="surrogateescape") for line in stderr])
 
     @staticmethod
     def expand(expression: str) -> str:
@@ -149,6 +149,9 @@ class Macros:
                 return rpm.expandMacro(expression)
         except rpm.error as e:
             raise RPMException(stderr=stderr) from e
+        except UnicodeEncodeError as e:
+            # RPM bindings can't handle anything that is not valid UTF-8
+            raise RPMException(stderr=[f"error: {e}\n".encode()]) from e
 
     @classmethod
     def remove(cls, macro: str) -> None:
-- 
2.43.0


From f1d0d9d48bcc9ee76767cd7fdff944f959a700af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:21 +0000
Subject: [PATCH 055/109] fix: delete correct items when using slices with
 negative step

---
 specfile/changelog.py         | 2 +-
 specfile/macro_definitions.py | 2 +-
 specfile/options.py           | 2 +-
 specfile/prep.py              | 2 +-
 specfile/sourcelist.py        | 2 +-
 specfile/sources.py           | 4 +++-
 specfile/tags.py              | 2 +-
 7 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 3f45575..83266ca 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -254,7 +254,7 @@ class Changelog(UserList[ChangelogEntry]):
                 self._predecessor.extend(following_lines[1:])
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 326a508..9ca611b 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -256,7 +256,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/options.py b/specfile/options.py
index 9a01ea5..33036de 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -161,7 +161,7 @@ class Positionals(collections.abc.MutableSequence):
 
         items = self._get_items()
         if isinstance(i, slice):
-            for index in reversed(items[i]):
+            for index in sorted(items[i], reverse=True):
                 delete(index)
         else:
             delete(items[i])
diff --git a/specfile/prep.py b/specfile/prep.py
index 95a223e..2e14342 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -217,7 +217,7 @@ class PrepMacros(UserList[PrepMacro]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index abc72cf..d2e4fad 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -134,7 +134,7 @@ class Sourcelist(UserList[SourcelistEntry]):
             lines[0:0] = preceding_lines
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/sources.py b/specfile/sources.py
index fed11a4..c69385e 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -351,7 +351,9 @@ class Sources(collections.abc.MutableSequence):
     def __delitem__(self, i: Union[int, slice]) -> None:
         items = self._get_items()
         if isinstance(i, slice):
-            for _, container, index in reversed(items[i]):
+            for _, container, index in sorted(
+                items[i], key=lambda item: item[2], reverse=True
+            ):
                 del container[index]
         else:
             _, container, index = items[i]
diff --git a/specfile/tags.py b/specfile/tags.py
index 7a67523..8f3c6aa 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -388,7 +388,7 @@ class Tags(UserList[Tag]):
             )
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
-- 
2.43.0


From 039b9ae39643bcdd574c44f18f9ef310d6b376d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:27 +0000
Subject: [PATCH 056/109] fix: do not insert tags inside nested conditions and
 macro definition bodies

---
 specfile/tags.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 8f3c6aa..3fea90e 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -474,14 +474,22 @@ class Tags(UserList[Tag]):
             lines = self._remainder
         self.data.insert(i, item)
         # do not make the new tag part of a condition block (in case there is one)
+        excluded_lines = set()
+        macro_definitions = MacroDefinitions.parse(lines)
+        for md in macro_definitions:
+            position = md.get_position(macro_definitions)
+            excluded_lines.update(range(position, position + len(md.body.split("\n"))))
         index = -1
         level = 0
         for n, line in enumerate(lines):
+            # ignore conditions inside macro definition bodies
+            if n in excluded_lines:
+                continue
             if line.lstrip().startswith("%if"):
                 level += 1
             elif line.lstrip().startswith("%endif"):
                 level -= 1
-                if level < 0 or index < 0:
+                if level < 0 or level == 0 and index < 0:
                     index = n
                 level = max(level, 0)
         if index >= 0:
-- 
2.43.0


From 6884ce38ce706ba2dd4ed19c6eed4aa9b2c95419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:39 +0000
Subject: [PATCH 057/109] fix: make commenting macro definitions out and in
 effective with any prefix

---
 specfile/macro_definitions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 9ca611b..5a3b27c 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -114,11 +114,12 @@ class MacroDefinition:
                 dnl = "%dnl"
             elif self.comment_out_style is CommentOutStyle.HASH:
                 sc = "#"
-        if self.comment_out_style is CommentOutStyle.OTHER:
-            if not self.commented_out:
                 prefix = ""
             elif "#" not in prefix:
                 prefix = "#%"
+        elif prefix.endswith("%") or prefix.strip() and not prefix.startswith("#"):
+            # this prefix makes sense only if the definition is commented out
+            prefix = ""
         macro = "global" if self.is_global else "define"
         return f"{ws[0]}{dnl}{prefix}{sc}{macro}{ws[1]}{self.name}{ws[2]}{self.body}{ws[3]}"
 
@@ -152,11 +153,12 @@ class MacroDefinition:
                 dnl = "%dnl"
             elif self.comment_out_style is CommentOutStyle.HASH:
                 sc = "#"
-        if self.comment_out_style is CommentOutStyle.OTHER:
-            if not self.commented_out:
                 prefix = ""
             elif "#" not in prefix:
                 prefix = "#%"
+        elif prefix.endswith("%") or prefix.strip() and not prefix.startswith("#"):
+            # this prefix makes sense only if the definition is commented out
+            prefix = ""
         macro = "global" if self.is_global else "define"
         body = (self.body + ws[3]).split("\n")
         result.append(
-- 
2.43.0


From 68c6c1b26866a5bcd32b89a9b9f761ae20e02082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:33 +0000
Subject: [PATCH 058/109] fix: do not lose %dnl in front of a commented out
 macro definition

---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 5a3b27c..900c388 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -375,7 +375,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                             if hashed
                             else (
                                 CommentOutStyle.OTHER
-                                if escaped and "#" in sc
+                                if not dnl and escaped and "#" in sc
                                 else CommentOutStyle.DNL
                             )
                         ),
-- 
2.43.0


From 095870a634929ffca00757dddfa104f480387a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:48 +0000
Subject: [PATCH 059/109] fix: do not comment macro definitions out with
 invalid syntax

---
 specfile/macro_definitions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 900c388..335285d 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -112,6 +112,8 @@ class MacroDefinition:
         if self.commented_out:
             if self.comment_out_style is CommentOutStyle.DNL:
                 dnl = "%dnl"
+                if prefix.startswith("#"):
+                    prefix = " "
             elif self.comment_out_style is CommentOutStyle.HASH:
                 sc = "#"
                 prefix = ""
@@ -151,6 +153,8 @@ class MacroDefinition:
         if self.commented_out:
             if self.comment_out_style is CommentOutStyle.DNL:
                 dnl = "%dnl"
+                if prefix.startswith("#"):
+                    prefix = " "
             elif self.comment_out_style is CommentOutStyle.HASH:
                 sc = "#"
                 prefix = ""
@@ -327,7 +331,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
             ^
             (\s*)                          # optional preceding whitespace
             (%dnl)?                        # optional DNL prefix
-            ((?(2).*?%|(?:%|\#(?:.*?%)?))) # starting character with optional prefix
+            ((?(2)(?:\s.*?)?%|(?:%|\#(?:.*?%)?))) # starting character with optional prefix
             (global|define)                # scope-defining macro definition
             (\s+)
             (\w+(?:\(.*?\))?)              # macro name with optional arguments in parentheses
-- 
2.43.0


From e5a7e567290b92a626854e77da0333a72726a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:26 +0000
Subject: [PATCH 060/109] fix: separate section name from positional arguments,
 but not from nothing

---
 specfile/sections.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 0285122..95d6563 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -101,6 +101,14 @@ class Section(collections.UserList):
         else:
             return self.data[i]
 
+    def _get_option_string(self) -> str:
+        """Gets option string including the delimiter, if there are any options or arguments."""
+        options = str(self.options)
+        if not options:
+            return ""
+        # ensure delimiter is not empty when there are any options
+        return (self._delimiter or " ") + options
+
     @property
     def normalized_name(self) -> str:
         """Normalized name of the section. All characters are lowercased."""
@@ -109,18 +117,12 @@ class Section(collections.UserList):
     @property
     def id(self) -> str:
         """ID of the section (name and options, without the leading '%')."""
-        # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
-            self._delimiter = " "
-        return self.name + self._delimiter + str(self.options)
+        return self.name + self._get_option_string()
 
     @property
     def normalized_id(self) -> str:
         """Normalized ID of the section. All characters of name are lowercased."""
-        # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
-            self._delimiter = " "
-        return self.normalized_name + self._delimiter + str(self.options)
+        return self.normalized_name + self._get_option_string()
 
     @property
     def is_script(self) -> bool:
-- 
2.43.0


From 40855c9085a780cb6aca26d08223837d5ef9ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:36 +0000
Subject: [PATCH 061/109] fix: do not repeat e-mail in entries added to
 multiple changelog sections

---
 specfile/specfile.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index a95fd29..269ee60 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -519,23 +519,26 @@ class Specfile:
                 with self.changelog(section) as changelog:
                     if changelog is None:
                         return
-                    evr = self.expand(evr, extra_macros=[("dist", "")])
+                    # do not modify arguments, there could be more sections to update
+                    entry_evr = self.expand(evr, extra_macros=[("dist", "")])
+                    entry_timestamp = timestamp
+                    entry_author = author
                     if isinstance(entry, str):
                         entry = [entry]
-                    if timestamp is None:
+                    if entry_timestamp is None:
                         # honor the timestamp format, but default to date-only
                         if changelog and changelog[-1].extended_timestamp:
-                            timestamp = datetime.datetime.now().astimezone()
+                            entry_timestamp = datetime.datetime.now().astimezone()
                         else:
-                            timestamp = datetime.datetime.now(
+                            entry_timestamp = datetime.datetime.now(
                                 datetime.timezone.utc
                             ).date()
-                    if author is None:
-                        author = guess_packager()
-                        if not author:
+                    if entry_author is None:
+                        entry_author = guess_packager()
+                        if not entry_author:
                             raise SpecfileException("Failed to auto-detect author")
                     elif email is not None:
-                        author += f" <{email}>"
+                        entry_author += f" <{email}>"
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
@@ -546,10 +549,10 @@ class Specfile:
                         padding = "0"
                     changelog.append(
                         ChangelogEntry.assemble(
-                            timestamp,
-                            author,
+                            entry_timestamp,
+                            entry_author,
                             entry,
-                            evr,
+                            entry_evr,
                             day_of_month_padding=padding,
                             append_newline=bool(changelog),
                         )
-- 
2.43.0


From cfb198187a39709df67c6b3fd72aeb996a9e722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:07 +0000
Subject: [PATCH 062/109] fix: recognize extended timestamps with zero-padded
 day of month

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 83266ca..084d199 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -114,7 +114,7 @@ class ChangelogEntry:
             [ ]
             ({months})       # month
             [ ]+
-            ([12]?\d|3[01])  # day of month
+            (0?\d|[12]\d|3[01])  # day of month
             [ ]
             ([01]\d|2[0-3])  # hour
             :
-- 
2.43.0


From 46166635aa5a6b9ebc9b1fd063f68b89acb45943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:38 +0000
Subject: [PATCH 063/109] fix: do not fail to filter changelog that contains
 entries without EVR

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 084d199..f7ff725 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -280,7 +280,7 @@ class Changelog(UserList[ChangelogEntry]):
 
         def parse_evr(s):
             try:
-                return EVR.from_string(s)
+                return EVR.from_string(s or "")
             except SpecfileException:
                 return EVR(version="0")
 
-- 
2.43.0


From 29f3210cca6322f62ad4e0a9397995b7a3f18dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:28 +0000
Subject: [PATCH 064/109] fix: do not append a value to an already set flag

---
 specfile/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 33036de..93b761b 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -402,6 +402,9 @@ class Options(collections.abc.MutableMapping):
             return
         if value is None or value is False:
             return delattr(self, name)
+        if value is True:
+            # the flag is already set
+            return
         if j is not None and j > i:
             if self._needs_quoting(value):
                 if self._tokens[j].type not in (
-- 
2.43.0


From 8dea62c90e505258e26ec245254c2b44873920cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:20 +0000
Subject: [PATCH 065/109] fix: split option strings into words the same way RPM
 does

---
 specfile/options.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 93b761b..8c72d6f 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -507,6 +507,7 @@ class Options(collections.abc.MutableMapping):
         result: List[Token] = []
         token = ""
         literal = ""
+        token_type = TokenType.DEFAULT
         quote = None
         inp = []
         for node in ValueParser.parse(option_string):
@@ -517,18 +518,7 @@ class Options(collections.abc.MutableMapping):
         while inp:
             c = inp.pop(0)
             if c == quote:
-                result.append(
-                    Token(
-                        (
-                            TokenType.QUOTED
-                            if quote == "'"
-                            else TokenType.DOUBLE_QUOTED
-                        ),
-                        token,
-                        f"{quote}{literal}{quote}",
-                    )
-                )
-                token = literal = ""
+                literal += c
                 quote = None
                 continue
             if quote:
@@ -542,14 +532,14 @@ class Options(collections.abc.MutableMapping):
                 token += c
                 literal += c
                 continue
-            if c.isspace():
-                if token:
-                    result.append(Token(TokenType.DEFAULT, token, literal))
+            if c in string.whitespace:
+                if literal:
+                    result.append(Token(token_type, token, literal))
                     token = literal = ""
                 whitespace = c
                 while inp:
                     c = inp.pop(0)
-                    if not c.isspace():
+                    if c not in string.whitespace:
                         break
                     whitespace += c
                 else:
@@ -559,11 +549,17 @@ class Options(collections.abc.MutableMapping):
                 result.append(Token(TokenType.WHITESPACE, whitespace))
                 continue
             if c in ('"', "'"):
-                if token:
-                    result.append(Token(TokenType.DEFAULT, token, literal))
-                    token = literal = ""
+                if literal:
+                    # quoted string is only a part of the word
+                    token_type = TokenType.DEFAULT
+                else:
+                    token_type = (
+                        TokenType.QUOTED if c == "'" else TokenType.DOUBLE_QUOTED
+                    )
+                literal += c
                 quote = c
                 continue
+            token_type = TokenType.DEFAULT
             if c == "\\":
                 literal += c
                 if not inp:
@@ -573,6 +569,6 @@ class Options(collections.abc.MutableMapping):
             literal += c
         if quote:
             raise OptionsException("No closing quotation")
-        if token:
-            result.append(Token(TokenType.DEFAULT, token, literal))
+        if literal:
+            result.append(Token(token_type, token, literal))
         return result
-- 
2.43.0


From 0360f9cc59e6771aa42c4045897b4137f877e849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:49 +0000
Subject: [PATCH 066/109] fix: do not fail on option values with numeric
 characters that are not digits

---
 specfile/options.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 8c72d6f..4bbe4e8 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -125,11 +125,11 @@ class Positionals(collections.abc.MutableSequence):
             result = []
             for index in items[i]:
                 value = self._options._tokens[index].value
-                result.append(int(value) if value.isnumeric() else value)
+                result.append(int(value) if value.isdecimal() else value)
             return result
         else:
             value = self._options._tokens[items[i]].value
-            return int(value) if value.isnumeric() else value
+            return int(value) if value.isdecimal() else value
 
     @overload
     def __setitem__(self, i: int, item: Union[int, str]) -> None:
@@ -362,7 +362,7 @@ class Options(collections.abc.MutableMapping):
         )
         if not value:
             return True
-        if value.isnumeric():
+        if value.isdecimal():
             return int(value)
         return value
 
-- 
2.43.0


From 218cead335b15cba2da5df3e80207c5890c6258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:15 +0000
Subject: [PATCH 067/109] fix: do not break quoting when a positional argument
 is set to a value with backslashes

---
 specfile/options.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 4bbe4e8..8642e55 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -140,12 +140,19 @@ class Positionals(collections.abc.MutableSequence):
         pass
 
     def __setitem__(self, i, item):
+        def set_value(index, value):
+            token = self._options._tokens[index]
+            if "\\" in str(value):
+                # backslash could escape the closing quote
+                token.type = TokenType.DEFAULT
+            token.value = str(value)
+
         items = self._get_items()
         if isinstance(i, slice):
             for i0, i1 in enumerate(range(len(items))[i]):
-                self._options._tokens[items[i1]].value = str(item[i0])
+                set_value(items[i1], item[i0])
         else:
-            self._options._tokens[items[i]].value = str(item)
+            set_value(items[i], item)
 
     def __delitem__(self, i: Union[int, slice]) -> None:
         def delete(index):
-- 
2.43.0


From f9ab8886d865a72c14d41923e33aae67fcd003fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:06 +0000
Subject: [PATCH 068/109] fix: recognize %sourcelist and %patchlist regardless
 of letter case

---
 specfile/specfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 269ee60..a797185 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -371,7 +371,7 @@ class Specfile:
             sourcelists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "sourcelist"
+                if s.normalized_id == "sourcelist"
             ]
             try:
                 yield Sources(
@@ -412,7 +412,7 @@ class Specfile:
             patchlists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "patchlist"
+                if s.normalized_id == "patchlist"
             ]
             try:
                 yield Patches(
-- 
2.43.0


From 47cbb6c7179f9055df2e32f4e93b5a5e94353b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:13 +0000
Subject: [PATCH 069/109] fix: do not treat macro definitions in %sourcelist
 and %patchlist as entries

---
 specfile/sourcelist.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index d2e4fad..14bc079 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -161,13 +161,22 @@ class Sourcelist(UserList[SourcelistEntry]):
         condition_regex = re.compile(
             r"^\s*%((el)?if(n?(arch|os))?|endif|else)(\s|$)"
         )
+        excluded_lines = set()
+        for md in macro_definitions:
+            position = md.get_position(macro_definitions)
+            excluded_lines.update(range(position, position + len(md.body.split("\n"))))
         data = []
         buffer: List[str] = []
         continued_condition = False
-        for line, valid in lines:
+        for index, (line, valid) in enumerate(lines):
             is_condition = continued_condition or bool(condition_regex.match(line))
             continued_condition = is_condition and line.endswith("\\")
-            if line.strip() and not is_condition and not line.lstrip().startswith("#"):
+            if (
+                line.strip()
+                and index not in excluded_lines
+                and not is_condition
+                and not line.lstrip().startswith(("#", "%dnl"))
+            ):
                 data.append(
                     SourcelistEntry(line, Comments.parse(buffer), valid, context)
                 )
-- 
2.43.0


From 0b075b2c85a00787cd24cbff30b4c74b20aef534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:18 +0000
Subject: [PATCH 070/109] fix: do not consider trailing whitespace part of
 location in %sourcelist and %patchlist

---
 specfile/sourcelist.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 14bc079..b14200e 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -34,6 +34,7 @@ class SourcelistEntry:
         comments: Comments,
         valid: bool = True,
         context: Optional["Specfile"] = None,
+        suffix: Optional[str] = None,
     ) -> None:
         """
         Initializes a sourcelist entry object.
@@ -43,22 +44,28 @@ class SourcelistEntry:
             comments: List of comments associated with the source/patch.
             valid: Whether the entry is not located in a false branch of a condition.
             context: `Specfile` instance that defines the context for macro expansions.
+            suffix: Characters following the location on a line.
         """
         self.location = location
         self.comments = comments.copy()
         self.valid = valid
         self._context = context
+        self._suffix = suffix or ""
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SourcelistEntry):
             return NotImplemented
-        return self.location == other.location and self.comments == other.comments
+        return (
+            self.location == other.location
+            and self.comments == other.comments
+            and self._suffix == other._suffix
+        )
 
     @formatted
     def __repr__(self) -> str:
         return (
             f"SourcelistEntry({self.location!r}, {self.comments!r}, "
-            f"{self.valid!r}, {self._context!r})"
+            f"{self.valid!r}, {self._context!r}, {self._suffix!r})"
         )
 
     def __deepcopy__(self, memo: Dict[int, Any]) -> "SourcelistEntry":
@@ -177,8 +184,16 @@ class Sourcelist(UserList[SourcelistEntry]):
                 and not is_condition
                 and not line.lstrip().startswith(("#", "%dnl"))
             ):
+                # trailing whitespace is not part of the location
+                location = line.rstrip()
                 data.append(
-                    SourcelistEntry(line, Comments.parse(buffer), valid, context)
+                    SourcelistEntry(
+                        location,
+                        Comments.parse(buffer),
+                        valid,
+                        context,
+                        line[len(location) :],
+                    )
                 )
                 buffer = []
             else:
@@ -195,6 +210,6 @@ class Sourcelist(UserList[SourcelistEntry]):
         result = []
         for source in self.data:
             result.extend(source.comments.get_raw_data())
-            result.append(source.location)
+            result.append(source.location + source._suffix)
         result.extend(self._remainder)
         return result
-- 
2.43.0


From af7c4be628d16229e7463dadd99ddf775587fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:24 +0000
Subject: [PATCH 071/109] fix: do not fail on empty slices of sources and
 patches

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index c69385e..5c20712 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -328,7 +328,7 @@ class Sources(collections.abc.MutableSequence):
     def __getitem__(self, i):
         items = self._get_items()
         if isinstance(i, slice):
-            return list(zip(*items[i]))[0]
+            return [source for source, _, _ in items[i]]
         else:
             return items[i][0]
 
-- 
2.43.0


From c0d282f8bda6bd69947be31acc146c6551f5e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 072/109] fix: avoid number collisions after removing sources

---
 specfile/sources.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index 5c20712..a94a2e8 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -358,6 +358,7 @@ class Sources(collections.abc.MutableSequence):
         else:
             _, container, index = items[i]
             del container[index]
+        self._resolve_implicit_collisions()
 
     def _get_tags(self) -> List[Tuple[TagSource, Tags, int]]:
         """
@@ -518,6 +519,16 @@ class Sources(collections.abc.MutableSequence):
             used_numbers.add(number)
             previous_number = number
 
+    def _resolve_implicit_collisions(self) -> None:
+        """
+        Eliminates duplicate numbers if any of them is implicit. Implicit numbers
+        depend on preceding tags, so removing a source can change them.
+        """
+        tags = [ts for ts, _, _ in self._get_tags()]
+        implicit = {ts.number for ts in tags if ts._number is not None}
+        if any(ts._number is None and ts.number in implicit for ts in tags):
+            self._deduplicate_tag_names()
+
     def insert(self, i: int, location: str) -> None:
         """
         Inserts a new source at a specified index.
@@ -633,6 +644,7 @@ class Sources(collections.abc.MutableSequence):
         for source, container, index in reversed(self._get_items()):
             if source.location == location:
                 del container[index]
+        self._resolve_implicit_collisions()
 
     def remove_numbered(self, number: int) -> None:
         """
@@ -648,6 +660,7 @@ class Sources(collections.abc.MutableSequence):
             pass
         else:
             del container[index]
+            self._resolve_implicit_collisions()
 
     def count(self, location: str) -> int:
         """
-- 
2.43.0


From 07d9632e85a80200c0fc8f71d6530de7f28657a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:41 +0000
Subject: [PATCH 073/109] fix: treat condition consisting of a non-empty string
 as true

---
 specfile/conditions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 138e3f5..245b61e 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -45,7 +45,12 @@ def resolve_expression(
             # the expansion silently failed
             return False
         try:
-            return int(result) != 0
+            if int(result) != 0:
+                return True
+            # tell apart zero and a string containing zero, which is true
+            return expand(f"%{{expr:({expression}) ? 1 : 0}}") == "1"
+        except RPMException:
+            return False
         except ValueError:
             # non-empty string is true, empty string is false
             return bool(result)
-- 
2.43.0


From 5140807b4ac63689c87e57800902638473b3ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:47 +0000
Subject: [PATCH 074/109] fix: process conditions inside macro bodies in false
 branches

---
 specfile/conditions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 245b61e..95ca7f7 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -123,8 +123,9 @@ def process_conditions(
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
-        # ignore conditions inside macro definition body
-        if any(index in r for r in excluded_lines):
+        # ignore conditions inside macro definition body; macro definitions
+        # in false branches are not processed by RPM
+        if branches[-1] and any(index in r for r in excluded_lines):
             result.append((line, branches[-1]))
             continue
         expanded_line = line
-- 
2.43.0


From 315b5230074a4c6f6a9ab85f7f7348c4d8d65494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:08 +0000
Subject: [PATCH 075/109] fix: take conditions started in preceding sections
 into account

---
 specfile/sections.py   | 17 +++++++++++++++++
 specfile/sourcelist.py | 13 +++++++++++--
 specfile/specfile.py   | 24 +++++++++++++++++++++---
 specfile/tags.py       | 16 +++++++++++++---
 4 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 95d6563..5025542 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -306,6 +306,23 @@ class Sections(UserList[Section]):
             )
         return cls(data)
 
+    def get_preceding_lines(self, section: Section) -> List[str]:
+        """
+        Gets lines of all sections preceding the given section.
+
+        Args:
+            section: Section that is part of the object.
+
+        Returns:
+            List of lines. It's empty if the section is not part of the object.
+        """
+        result: List[str] = []
+        for s in self.data:
+            if s is section:
+                return result
+            result.extend(s.get_raw_data())
+        return []
+
     def get_raw_data(self) -> List[str]:
         result = []
         for section in self.data:
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index b14200e..e6a1ff6 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -151,7 +151,10 @@ class Sourcelist(UserList[SourcelistEntry]):
 
     @classmethod
     def parse(
-        cls, section: Section, context: Optional["Specfile"] = None
+        cls,
+        section: Section,
+        context: Optional["Specfile"] = None,
+        preceding_lines: Optional[List[str]] = None,
     ) -> "Sourcelist":
         """
         Parses a section into sources/patches.
@@ -159,12 +162,18 @@ class Sourcelist(UserList[SourcelistEntry]):
         Args:
             section: _%sourcelist_/_%patchlist_ section.
             context: `Specfile` instance that defines the context for macro expansions.
+            preceding_lines: Lines preceding the section. A condition that affects
+                the section can start there.
 
         Returns:
             New instance of `Sourcelist` class.
         """
+        preceding_lines = preceding_lines or []
+        all_lines = preceding_lines + list(section)
+        lines = process_conditions(
+            all_lines, MacroDefinitions.parse(all_lines), context
+        )[len(preceding_lines) :]
         macro_definitions = MacroDefinitions.parse(list(section))
-        lines = process_conditions(list(section), macro_definitions, context)
         condition_regex = re.compile(
             r"^\s*%((el)?if(n?(arch|os))?|endif|else)(\s|$)"
         )
diff --git a/specfile/specfile.py b/specfile/specfile.py
index a797185..ffe7cbb 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -294,7 +294,11 @@ class Specfile:
         with self.sections() as sections:
             if isinstance(section, str):
                 section = cast(Section, getattr(sections, section))
-            tags = Tags.parse(section, context=self)
+            tags = Tags.parse(
+                section,
+                context=self,
+                preceding_lines=sections.get_preceding_lines(section),
+            )
             try:
                 yield tags
             finally:
@@ -369,7 +373,14 @@ class Specfile:
         """
         with self.sections() as sections, self.tags() as tags:
             sourcelists = [
-                (s, Sourcelist.parse(s, context=self))
+                (
+                    s,
+                    Sourcelist.parse(
+                        s,
+                        context=self,
+                        preceding_lines=sections.get_preceding_lines(s),
+                    ),
+                )
                 for s in sections
                 if s.normalized_id == "sourcelist"
             ]
@@ -410,7 +421,14 @@ class Specfile:
         """
         with self.sections() as sections, self.tags() as tags:
             patchlists = [
-                (s, Sourcelist.parse(s, context=self))
+                (
+                    s,
+                    Sourcelist.parse(
+                        s,
+                        context=self,
+                        preceding_lines=sections.get_preceding_lines(s),
+                    ),
+                )
                 for s in sections
                 if s.normalized_id == "patchlist"
             ]
diff --git a/specfile/tags.py b/specfile/tags.py
index 3fea90e..fd3c1c8 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -228,6 +228,8 @@ class Tag:
             prefix: Characters preceding the tag on a line.
             suffix: Characters following the tag on a line.
             context: `Specfile` instance that defines the context for macro expansions.
+            preceding_lines: Lines preceding the section. A condition that affects
+                the section can start there.
         """
         name_regexes = [
             re.compile(get_tag_name_regex(t), re.IGNORECASE) for t in TAG_NAMES
@@ -500,7 +502,12 @@ class Tags(UserList[Tag]):
         self.insert(len(self.data), item)
 
     @classmethod
-    def parse(cls, section: Section, context: Optional["Specfile"] = None) -> "Tags":
+    def parse(
+        cls,
+        section: Section,
+        context: Optional["Specfile"] = None,
+        preceding_lines: Optional[List[str]] = None,
+    ) -> "Tags":
         """
         Parses a section into tags.
 
@@ -523,8 +530,11 @@ class Tags(UserList[Tag]):
             name_regex = get_tag_name_regex(tag)
             return rf"^(?P<n>{name_regex})(?P<s>\s*:\s*)(?P<v>.+)"
 
-        macro_definitions = MacroDefinitions.parse(list(section))
-        lines = process_conditions(list(section), macro_definitions, context)
+        preceding_lines = preceding_lines or []
+        lines = preceding_lines + list(section)
+        macro_definitions = MacroDefinitions.parse(lines)
+        lines = process_conditions(lines, macro_definitions, context)
+        lines = lines[len(preceding_lines) :]
         tag_regexes = [re.compile(regex_pattern(t), re.IGNORECASE) for t in TAG_NAMES]
         data = []
         buffer: List[str] = []
-- 
2.43.0


From ddf0d79e159192f28772ed729f28ae4bba2df9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:51 +0000
Subject: [PATCH 076/109] fix: recognize conditions the way RPM does

---
 specfile/conditions.py | 44 ++++++++++++++++++++++++++++--------------
 specfile/sourcelist.py |  2 +-
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 95ca7f7..880ff23 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -102,16 +102,22 @@ def process_conditions(
         r"""
         ^
         \s*                                           # optional preceding whitespace
-        (?P<kwd>%((el)?if(n?(arch|os))?|endif|else))  # keyword
-        \s*
         (
-            \s+
-            (?P<expr>.*?)                             # expression
-            (?P<end>\s*|\\)                           # optional following whitespace
+            (?P<kwd>%(el)?if(n?(arch|os))?)           # keyword
+            \s*
+            (
+                \s+
+                (?P<expr>.*?)                         # expression
+                (?P<end>\s*|\\)                       # optional following whitespace
                                                       # or a backslash indicating
                                                       # that the expression continues
                                                       # on the next line
-        )?
+            )?
+            |
+            (?P<end_kwd>%(endif|else))                # keyword without an expression
+            (?![A-Za-z])
+            .*
+        )
         $
         """,
         re.VERBOSE,
@@ -140,7 +146,16 @@ def process_conditions(
         if not m:
             result.append((line, branches[-1]))
             continue
-        keyword = m.group("kwd")
+        keyword = m.group("kwd") or m.group("end_kwd")
+        if (
+            m.group("kwd")
+            and not m.group("expr")
+            and m.group("end") != "\\"
+            and not branches[-1]
+        ):
+            # not a keyword without an expression
+            result.append((line, branches[-1]))
+            continue
         if not keyword.startswith("%if") and len(branches) < 2:
             # the condition starts before the processed lines
             result.append((line, branches[-1]))
@@ -155,14 +170,13 @@ def process_conditions(
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
-            expression = m.group("expr")
-            if expression:
-                if m.group("end") == "\\":
-                    expression += "\\"
-                while expression.endswith("\\") and indexed_lines:
-                    _, line = indexed_lines.pop(0)
-                    result.append((line, branches[-1]))
-                    expression = expression[:-1] + line
+            expression = m.group("expr") or ""
+            if m.group("end") == "\\":
+                expression += "\\"
+            while expression.endswith("\\") and indexed_lines:
+                _, line = indexed_lines.pop(0)
+                result.append((line, branches[-1]))
+                expression = expression[:-1] + line
             branch = (
                 False
                 if not branches[-1]
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index e6a1ff6..5945542 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -175,7 +175,7 @@ class Sourcelist(UserList[SourcelistEntry]):
         )[len(preceding_lines) :]
         macro_definitions = MacroDefinitions.parse(list(section))
         condition_regex = re.compile(
-            r"^\s*%((el)?if(n?(arch|os))?|endif|else)(\s|$)"
+            r"^\s*%((el)?if(n?(arch|os))?(\s|$)|(endif|else)(?![A-Za-z]))"
         )
         excluded_lines = set()
         for md in macro_definitions:
-- 
2.43.0


From 53e4cf2326a33913daced731d8c41e638f0a4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:34 +0000
Subject: [PATCH 077/109] fix: parse again if processing conditions could have
 changed macros

---
 specfile/conditions.py  | 6 ++++++
 specfile/spec_parser.py | 8 ++++++++
 specfile/specfile.py    | 4 ++++
 3 files changed, 18 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 880ff23..ed2f23b 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -122,6 +122,9 @@ def process_conditions(
         """,
         re.VERBOSE,
     )
+    # expanding lines matching this regex again can change the macro context
+    side_effect_regex = re.compile(r"%\W*(undefine|define|global|bcond\w*|lua|load)\b")
+    tainted = False
     result = []
     branches = [True]
     # whether any branch of the respective condition has been true so far
@@ -142,6 +145,7 @@ def process_conditions(
             except RPMException:
                 # ignore failed expansion and use the original line
                 pass
+            tainted = tainted or bool(side_effect_regex.search(line))
         m = condition_regex.match(expanded_line)
         if not m:
             result.append((line, branches[-1]))
@@ -188,4 +192,6 @@ def process_conditions(
             else:
                 branches.append(branch)
                 fulfilled.append(branch)
+    if tainted and context:
+        context.invalidate()
     return result
diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 221957e..df6810d 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -380,6 +380,14 @@ class SpecParser:
             # do a full parse with dummy sources
             return get_rpm_spec(content, rpm.RPMSPEC_ANYARCH), tainted
 
+    @staticmethod
+    def invalidate() -> None:
+        """
+        Makes sure that the next call to `parse()` is not skipped. To be used if the macro
+        context could have changed since the last parse.
+        """
+        SpecParser._last_parse_hash = None
+
     def parse(
         self,
         content: str,
diff --git a/specfile/specfile.py b/specfile/specfile.py
index ffe7cbb..b663e11 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -213,6 +213,10 @@ class Specfile:
             self._parser.parse(str(self), extra_macros)
         return Macros.expand(expression)
 
+    def invalidate(self) -> None:
+        """Makes sure that the spec file is parsed again before the next expansion."""
+        self._parser.invalidate()
+
     def get_active_macros(self) -> List[Macro]:
         """
         Gets active macros in the context of the spec file.
-- 
2.43.0


From 7ec64dd81ae428262c2644518f9e6e2dd6e1aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:59 +0000
Subject: [PATCH 078/109] fix: parse output of %dump properly

---
 specfile/macros.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index ae11fbe..01b0672 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -87,14 +87,15 @@ class Macros:
         """
         # last line contains only summary
         dump.pop()
+        levels = "|".join(f"{level:3d}" for level in MacroLevel)
         macro_regex = re.compile(
-            r"^\s*(?P<l>-?\d+)(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?\t(?P<b>.*)$"
+            rf"^(?P<l>{levels})(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?(\t(?P<b>.*))?$"
         )
         result = []
         while dump:
             line = dump.pop(0)
-            # join long lines split by \
-            while line.endswith("\\\n"):
+            # join long lines split by \, the last line of a body can also end with it
+            while line.endswith("\\\n") and dump and not macro_regex.match(dump[0]):
                 line = line[:-2] + dump.pop(0)
             # get rid of newline characters
             line = line[:-1]
@@ -104,7 +105,7 @@ class Macros:
                     Macro(
                         m.group("n"),
                         m.group("o"),
-                        m.group("b"),
+                        m.group("b") or "",
                         MacroLevel(int(m.group("l"))),
                         m.group("u") == "=",
                     )
-- 
2.43.0


From afbff7b3b4034849ec4b766353f698c434c915d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:04 +0000
Subject: [PATCH 079/109] fix: do not consider a macro defined as an escaped
 reference to itself removed

---
 specfile/macros.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index 01b0672..29fdfbc 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -174,7 +174,9 @@ class Macros:
             rpm.delMacro(macro)
             try:
                 if cls.expand(f"%{{{macro}}}") == f"%{{{macro.replace('%%', '%')}}}":
-                    break
+                    # the macro could also be defined as an escaped reference to itself
+                    if not cls.expand(f"%{{?{macro}:1}}"):
+                        break
             except RPMException:
                 # the macro can't be expanded, but it still exists
                 retry += 1
-- 
2.43.0


From 5260fdd50102236a2fea29e0d0baadd23f0b21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:45 +0000
Subject: [PATCH 080/109] fix: do not fail to parse spec files with too long
 filenames of sources

---
 specfile/spec_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index df6810d..a0db84b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -154,7 +154,7 @@ class SpecParser:
                     continue
                 # follow dangling symlinks so that they are not removed together with dummy sources
                 path = Path(os.path.realpath(self.sourcedir / filename))
-                if path.exists() or path.is_symlink():
+                if os.path.lexists(path):
                     continue
                 for ext, magic in SIGNATURES:
                     if filename.endswith(ext):
@@ -169,7 +169,7 @@ class SpecParser:
                 if not filename:
                     continue
                 path = Path(os.path.realpath(self.sourcedir / filename))
-                if path.exists() or path.is_symlink():
+                if os.path.lexists(path):
                     continue
                 try:
                     path.write_text("DUMMY")
-- 
2.43.0


From d558fd11e5f0dc2767c6cff3e01dbe6d73cbe9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:30 +0000
Subject: [PATCH 081/109] fix: do not fail to convert RPM exception with an
 empty message to string

---
 specfile/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 042b90e..14f6be7 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -19,7 +19,7 @@ class RPMException(SpecfileException):
         for rline in self.stderr:
             line = rline.decode(errors="replace").rstrip()
             if line.startswith("error:"):
-                return line.split("error: ", maxsplit=1)[1]
+                return line[len("error: ") :]
         return "\n" + b"".join(self.stderr).decode(errors="replace")
 
 
-- 
2.43.0


From f74ad311f2fa02af6b78b4c0a2d28e77d59d11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:30 +0000
Subject: [PATCH 082/109] fix: do not lose %package lines without arguments

---
 specfile/sections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/sections.py b/specfile/sections.py
index 5025542..31e8918 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -295,6 +295,10 @@ class Sections(UserList[Section]):
         data = [Section(PREAMBLE, data=lines[: section_starts[0]])]
         for start, end in zip(section_starts, section_starts[1:]):
             name, options, delimiter, separator, content = split_id(lines[start][1:])
+            if name.lower() == PREAMBLE and options is None:
+                # this is not a valid section, do not confuse it with preamble
+                data[-1].extend(lines[start:end])
+                continue
             data.append(
                 Section(
                     name,
-- 
2.43.0


From 1c89c4ad9543bd07e52332ce721924f794ce71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:52 +0000
Subject: [PATCH 083/109] fix: distinguish contexts of different objects with
 equal content

---
 specfile/context_management.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index 0f8a3a4..5a29eb9 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -4,6 +4,7 @@
 import collections
 import contextlib
 import functools
+import inspect
 import io
 import os
 import pickle
@@ -106,11 +107,19 @@ class ContextManager:
         return types.MethodType(self, obj)
 
     def __call__(self, *args: Any, **kwargs: Any) -> GeneratorContextManager:
-        # serialize the passed arguments
-        payload = list(args) + sorted(kwargs.items())
-        if payload and self.is_bound:
-            # do not attempt to pickle self/cls
-            payload[0] = (type(payload[0]), id(payload[0]))
+        def identify(value):
+            if value is None or isinstance(value, (bool, int, float, str, bytes)):
+                return value
+            # do not attempt to pickle self/cls or any other objects,
+            # distinct objects can have equal content
+            return type(value), id(value)
+
+        # serialize the passed arguments, it doesn't matter in which way they are passed
+        arguments = inspect.signature(self.function).bind(*args, **kwargs)
+        arguments.apply_defaults()
+        payload = [identify(a) for a in arguments.args] + [
+            (k, identify(v)) for k, v in sorted(arguments.kwargs.items())
+        ]
         key = pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         if (
             key in self.generators
-- 
2.43.0


From b82b8302f638063146581b827bec278a9ea2ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:59 +0000
Subject: [PATCH 084/109] fix: do not lose changes made in nested contexts of
 the same section

---
 specfile/specfile.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index b663e11..1aba46f 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -297,7 +297,10 @@ class Specfile:
         """
         with self.sections() as sections:
             if isinstance(section, str):
-                section = cast(Section, getattr(sections, section))
+                # share the context with `Section` instances
+                with self.tags(cast(Section, getattr(sections, section))) as tags:
+                    yield tags
+                return
             tags = Tags.parse(
                 section,
                 context=self,
@@ -327,15 +330,17 @@ class Specfile:
                 try:
                     section = sections.changelog
                 except AttributeError:
-                    section = None
-            if section is None:
-                yield None
-            else:
-                changelog = Changelog.parse(section)
-                try:
-                    yield changelog
-                finally:
-                    section.data = changelog.get_raw_section_data()
+                    yield None
+                else:
+                    # share the context with `Section` instances
+                    with self.changelog(section) as changelog:
+                        yield changelog
+                return
+            changelog = Changelog.parse(section)
+            try:
+                yield changelog
+            finally:
+                section.data = changelog.get_raw_section_data()
 
     @ContextManager
     def prep(self) -> Generator[Optional[Prep], None, None]:
-- 
2.43.0


From 6669af9685d73cb3a7b60168341301b24d426660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:57 +0000
Subject: [PATCH 085/109] fix: do not fail to create contexts of objects of
 local classes

---
 specfile/context_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index 5a29eb9..3460d6d 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -112,7 +112,7 @@ class ContextManager:
                 return value
             # do not attempt to pickle self/cls or any other objects,
             # distinct objects can have equal content
-            return type(value), id(value)
+            return "object", id(value)
 
         # serialize the passed arguments, it doesn't matter in which way they are passed
         arguments = inspect.signature(self.function).bind(*args, **kwargs)
-- 
2.43.0


From 5ca497270da63124538694a9254b20068f8bad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:04 +0000
Subject: [PATCH 086/109] fix: do not lose changes made in nested contexts of
 sources or patches

---
 specfile/specfile.py | 98 ++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 54 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 1aba46f..b6c3df9 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -363,24 +363,17 @@ class Specfile:
                     section.data = prep.get_raw_section_data()
 
     @ContextManager
-    def sources(
-        self,
-        allow_duplicates: bool = False,
-        default_to_implicit_numbering: bool = False,
-        default_source_number_digits: int = 1,
-    ) -> Generator[Sources, None, None]:
+    def _sourcelists(self, name: str) -> Generator[List[Sourcelist], None, None]:
         """
-        Context manager for accessing sources.
+        Context manager for accessing all _%sourcelist_ or _%patchlist_ sections.
 
         Args:
-            allow_duplicates: Whether to allow duplicate entries when adding new sources.
-            default_to_implicit_numbering: Use implicit numbering (no source numbers) by default.
-            default_source_number_digits: Default number of digits in a source number.
+            name: Name of the sections.
 
         Yields:
-            Spec file sources as `Sources` object.
+            Content of the sections as list of `Sourcelist` objects.
         """
-        with self.sections() as sections, self.tags() as tags:
+        with self.sections() as sections:
             sourcelists = [
                 (
                     s,
@@ -391,25 +384,42 @@ class Specfile:
                     ),
                 )
                 for s in sections
-                if s.normalized_id == "sourcelist"
+                if s.normalized_id == name
             ]
             try:
-                yield Sources(
-                    tags,
-                    (
-                        cast(List[Sourcelist], list(zip(*sourcelists))[1])
-                        if sourcelists
-                        else []
-                    ),
-                    allow_duplicates,
-                    default_to_implicit_numbering,
-                    default_source_number_digits,
-                    context=self,
-                )
+                yield [sourcelist for _, sourcelist in sourcelists]
             finally:
                 for section, sourcelist in sourcelists:
                     section.data = sourcelist.get_raw_section_data()
 
+    @ContextManager
+    def sources(
+        self,
+        allow_duplicates: bool = False,
+        default_to_implicit_numbering: bool = False,
+        default_source_number_digits: int = 1,
+    ) -> Generator[Sources, None, None]:
+        """
+        Context manager for accessing sources.
+
+        Args:
+            allow_duplicates: Whether to allow duplicate entries when adding new sources.
+            default_to_implicit_numbering: Use implicit numbering (no source numbers) by default.
+            default_source_number_digits: Default number of digits in a source number.
+
+        Yields:
+            Spec file sources as `Sources` object.
+        """
+        with self.tags() as tags, self._sourcelists("sourcelist") as sourcelists:
+            yield Sources(
+                tags,
+                sourcelists,
+                allow_duplicates,
+                default_to_implicit_numbering,
+                default_source_number_digits,
+                context=self,
+            )
+
     @ContextManager
     def patches(
         self,
@@ -428,35 +438,15 @@ class Specfile:
         Yields:
             Spec file patches as `Patches` object.
         """
-        with self.sections() as sections, self.tags() as tags:
-            patchlists = [
-                (
-                    s,
-                    Sourcelist.parse(
-                        s,
-                        context=self,
-                        preceding_lines=sections.get_preceding_lines(s),
-                    ),
-                )
-                for s in sections
-                if s.normalized_id == "patchlist"
-            ]
-            try:
-                yield Patches(
-                    tags,
-                    (
-                        cast(List[Sourcelist], list(zip(*patchlists))[1])
-                        if patchlists
-                        else []
-                    ),
-                    allow_duplicates,
-                    default_to_implicit_numbering,
-                    default_source_number_digits,
-                    context=self,
-                )
-            finally:
-                for section, patchlist in patchlists:
-                    section.data = patchlist.get_raw_section_data()
+        with self.tags() as tags, self._sourcelists("patchlist") as patchlists:
+            yield Patches(
+                tags,
+                patchlists,
+                allow_duplicates,
+                default_to_implicit_numbering,
+                default_source_number_digits,
+                context=self,
+            )
 
     @property
     def has_autorelease(self) -> bool:
-- 
2.43.0


From 951898a30702ea049b909fa618397dc420343488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:41 +0000
Subject: [PATCH 087/109] fix: do not swallow KeyError raised in a nested
 context

---
 specfile/context_management.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index 3460d6d..237c090 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -128,12 +128,10 @@ class ContextManager:
         ):
             # generator is suspended, use existing value
             def existing_value():
-                try:
+                # if the generator is being consumed in GeneratorContextManager destructor,
+                # self.values[key] could have already been deleted
+                if key in self.values:
                     yield self.values[key]
-                except KeyError:
-                    # if the generator is being consumed in GeneratorContextManager destructor,
-                    # self.values[key] could have already been deleted
-                    pass
 
             return GeneratorContextManager(existing_value)
         # create the generator
-- 
2.43.0


From 1996271ce6a48701623d5893092bd739387205f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:07 +0000
Subject: [PATCH 088/109] fix: make sure updated tag expands to the requested
 value

---
 specfile/specfile.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index b6c3df9..5352563 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -14,6 +14,7 @@ import rpm
 from specfile.changelog import Changelog, ChangelogEntry, guess_packager
 from specfile.context_management import ContextManager
 from specfile.exceptions import (
+    RPMException,
     SourceNumberException,
     SpecfileException,
     UnterminatedMacroException,
@@ -941,6 +942,7 @@ class Specfile:
             protected_entities: Regular expression specifying protected tags and macro definitions,
                 ensuring their values won't be updated.
         """
+        original_lines = self._lines.copy()
         with self.tags() as tags:
             tag = getattr(tags, name)
             original_value = tag.value
@@ -952,6 +954,20 @@ class Specfile:
         )
         with self.tags() as tags:
             getattr(tags, name).value = updated_value
+        if updated_value == value:
+            return
+        # make sure the result is the requested value
+        try:
+            with self.tags() as tags:
+                if getattr(tags, name).expanded_value == self.expand(value):
+                    return
+        except (AttributeError, RPMException):
+            pass
+        # substitutions can't be preserved
+        with self.lines() as lines:
+            lines[:] = original_lines
+        with self.tags() as tags:
+            getattr(tags, name).value = value
 
     def update_version(
         self,
-- 
2.43.0


From ff4156eca578b286110b056be23098b7af1900a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:43 +0000
Subject: [PATCH 089/109] fix: handle patterns with optional delimiter of
 pre-release suffix

---
 specfile/specfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 5352563..4bba9b8 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1018,7 +1018,7 @@ class Specfile:
         def handle_prerelease(version):
             if not prerelease_suffix_pattern:
                 return version
-            m = re.match(f"^.*?{prerelease_suffix_pattern}$", version, re.IGNORECASE)
+            m = re.search(f"(?:{prerelease_suffix_pattern})$", version, re.IGNORECASE)
             if not m:
                 update_macro(False)
                 return version
@@ -1026,6 +1026,9 @@ class Specfile:
                 base_end, suffix_start = m.span(1)
             except IndexError:
                 raise SpecfileException("Invalid pre-release pattern")
+            if base_end < 0:
+                # the group is optional and there is no delimiter
+                base_end = suffix_start = m.start()
             update_macro(True)
             return version[:base_end] + "~" + version[suffix_start:]
 
-- 
2.43.0


From 88fc62207ac7397f6dd2163fac9eab3d32fdbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:51 +0000
Subject: [PATCH 090/109] fix: do not fail to update values referencing macros
 named like substitution groups

---
 specfile/specfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 4bba9b8..64cdadb 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -803,6 +803,8 @@ class Specfile:
                     if md.valid
                     and not protected_regex.match(md.name)
                     and not md.name.endswith(")")  # skip macro definitions with options
+                    # avoid collisions with substitution groups
+                    and not md.name.startswith(SUBSTITUTION_GROUP_PREFIX)
                 ]
             )
         with self.tags() as tags:
-- 
2.43.0


From f805783f2b6c6875afe6fa0e87e950a198aa8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:53 +0000
Subject: [PATCH 091/109] fix: make sure updated tag expands to the requested
 value also if macros are redefined

---
 specfile/specfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 64cdadb..b8d6281 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -960,9 +960,9 @@ class Specfile:
             return
         # make sure the result is the requested value
         try:
-            with self.tags() as tags:
-                if getattr(tags, name).expanded_value == self.expand(value):
-                    return
+            parsed_tags = Tags.parse(self.parsed_sections.package)
+            if getattr(parsed_tags, name).value == self.expand(value):
+                return
         except (AttributeError, RPMException):
             pass
         # substitutions can't be preserved
-- 
2.43.0


From f349d4ee39b63075a752416a4768484e77f8ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:34 +0000
Subject: [PATCH 092/109] fix: do not set release to None when parsing NEVRA
 without release

---
 specfile/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index a77cc6d..dae7e31 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -247,7 +247,7 @@ class NEVRA(NEVR):
         if not m:
             raise SpecfileException("Invalid NEVRA string.")
         n, e, v, r, a = m.groups()
-        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r, arch=a)
+        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r or "", arch=a)
 
 
 def get_filename_from_location(location: str) -> str:
-- 
2.43.0


From 9062e800e5daee7f11bcf55e86b0a4dcb8dbfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:39 +0000
Subject: [PATCH 093/109] fix: do not accept strings with trailing newline as
 EVR, NEVR, NEVRA or architecture

---
 specfile/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index dae7e31..63bc89a 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -85,7 +85,7 @@ class EVR(collections.abc.Hashable):
 
     @classmethod
     def from_string(cls, evr: str) -> "EVR":
-        m = re.match(f"^{cls._regex}$", evr)
+        m = re.fullmatch(cls._regex, evr)
         if not m:
             raise SpecfileException("Invalid EVR string.")
         e, v, r = m.groups()
@@ -159,7 +159,7 @@ class NEVR(EVR):
 
     @classmethod
     def from_string(cls, nevr: str) -> "NEVR":
-        m = re.match(f"^{cls._regex}$", nevr)
+        m = re.fullmatch(cls._regex, nevr)
         if not m:
             raise SpecfileException("Invalid NEVR string.")
         n, e, v, r = m.groups()
@@ -175,7 +175,7 @@ class NEVRA(NEVR):
     def __init__(
         self, *, name: str, version: str, release: str, arch: str, epoch: int = 0
     ) -> None:
-        if not re.match(f"^{self._arches_regex}$", arch):
+        if not re.fullmatch(self._arches_regex, arch):
             raise SpecfileException("Invalid architecture name.")
         self.arch = arch
         super().__init__(name=name, epoch=epoch, version=version, release=release)
@@ -243,7 +243,7 @@ class NEVRA(NEVR):
 
     @classmethod
     def from_string(cls, nevra: str) -> "NEVRA":
-        m = re.match(f"^{cls._regex}$", nevra)
+        m = re.fullmatch(cls._regex, nevra)
         if not m:
             raise SpecfileException("Invalid NEVRA string.")
         n, e, v, r, a = m.groups()
-- 
2.43.0


From 721a52ae8815b9ed7fd8103cc2baab0cfb9bafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:04 +0000
Subject: [PATCH 094/109] fix: treat lone percent signs in values as string
 literals

---
 specfile/value_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 495f48b..81c3782 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -250,12 +250,13 @@ class ValueParser:
         while start < len(value):
             try:
                 end = value.index("%", start + offset)
-                try:
-                    if value[end + 1] == "%":
-                        offset = end + 2 - start
-                        continue
-                except IndexError:
-                    raise UnterminatedMacroException
+                if value[end + 1 : end + 2] == "%":
+                    offset = end + 2 - start
+                    continue
+                if end + 1 == len(value) or find_macro_end(end + 1) == end + 1:
+                    # RPM keeps lone percent signs as they are
+                    offset = end + 1 - start
+                    continue
             except ValueError:
                 end = None
             if end is None:
-- 
2.43.0


From a3a70a82565967d4a13efbfa1053eacbe033a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:09 +0000
Subject: [PATCH 095/109] fix: do not consider non-ASCII characters part of a
 macro name

---
 specfile/value_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 81c3782..d859728 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -236,7 +236,9 @@ class ValueParser:
                 i += 1
             if i < len(value) and value[i] == "-":
                 i += 1
-            while i < len(value) and (value[i].isalnum() or value[i] == "_"):
+            while i < len(value) and (
+                value[i].isascii() and value[i].isalnum() or value[i] == "_"
+            ):
                 i += 1
             if value[i : i + 2] == "**":
                 i += 2
-- 
2.43.0


From 3331de8a8bb23bdcb4ea1fd0f7bc0bd31f8b34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:39 +0000
Subject: [PATCH 096/109] fix: take positional arguments into account when
 comparing options

---
 specfile/options.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 8642e55..1d4bbdf 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -281,6 +281,11 @@ class Options(collections.abc.MutableMapping):
     def __str__(self) -> str:
         return "".join(str(t) for t in self._tokens)
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Options):
+            return super().__eq__(other)
+        return super().__eq__(other) and self.positional == other.positional
+
     def _valid_option(self, name: str) -> bool:
         """
         Determines if a name represents a recognized option.
-- 
2.43.0


From 86c0dd2bff2130148bd3d4797befa525e5d6b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:45 +0000
Subject: [PATCH 097/109] fix: do not consider sections with different names or
 options equal

---
 specfile/sections.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/specfile/sections.py b/specfile/sections.py
index 31e8918..110a6cd 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -78,6 +78,15 @@ class Section(collections.UserList):
             return data
         return f"%{self.id}{self._separator}{data}"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Section):
+            return super().__eq__(other)
+        return (
+            self.id == other.id
+            and self._separator == other._separator
+            and self.data == other.data
+        )
+
     @formatted
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From 3fbe76aefe7febebc476e82cdfea480bf2bcb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:50 +0000
Subject: [PATCH 098/109] fix: do not consider spec files that differ in
 trailing newline equal

---
 specfile/specfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index b8d6281..ff6ddee 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -88,6 +88,7 @@ class Specfile:
             self.autosave == other.autosave
             and self._path == other._path
             and self._lines == other._lines
+            and self._trailing_newline == other._trailing_newline
             and self._parser == other._parser
         )
 
-- 
2.43.0


From cae3f542effec476b9f598776a6319a016c11606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:12 +0000
Subject: [PATCH 099/109] fix: do not fail with IndexError if spec file ends
 with a continued %include

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index a0db84b..27bbf1b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -297,7 +297,7 @@ class SpecParser:
                 if not m:
                     continue
                 arg = m.group(1)
-                while line.endswith("\\"):
+                while line.endswith("\\") and lines:
                     line = lines.pop(0)
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
-- 
2.43.0


From 3d96098df08130dc9ee2c6580f3557a2fd91fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:18 +0000
Subject: [PATCH 100/109] fix: ignore whitespace following filename in %include
 when forcing parsing

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 27bbf1b..15de656 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -302,7 +302,7 @@ class SpecParser:
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
                 # even though it failed, populated the macro context
-                source = Path(Macros.expand(arg))
+                source = Path(Macros.expand(arg).strip())
                 # ignore files outside of sourcedir
                 if is_in_sourcedir(source):
                     sources.add(source.name)
-- 
2.43.0


From 17e35bd603647d6f5f77acea07ae645af4a70e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:24 +0000
Subject: [PATCH 101/109] fix: do not fake sources referenced from tags with
 empty files if they are remote

---
 specfile/spec_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 15de656..a947744 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -358,8 +358,12 @@ class SpecParser:
                         content, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE
                     )
                     # spec.sources contains also previously collected
-                    # non empty sources (if any), remove them
-                    sources = {s for s, _, _ in spec.sources} - non_empty_sources
+                    # non empty sources (if any), ignore them
+                    sources = {
+                        s
+                        for s, _, _ in spec.sources
+                        if get_filename_from_location(s) not in non_empty_sources
+                    }
 
         # workaround RPM lua tables feature/bug
         #
-- 
2.43.0


From 7dea0dfc83cc09e8e99d679e16c7d7c8a2bb8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:29 +0000
Subject: [PATCH 102/109] fix: force parsing also if included or loaded files
 are not listed as sources

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index a947744..f097c38 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -359,7 +359,7 @@ class SpecParser:
                     )
                     # spec.sources contains also previously collected
                     # non empty sources (if any), ignore them
-                    sources = {
+                    sources |= {
                         s
                         for s, _, _ in spec.sources
                         if get_filename_from_location(s) not in non_empty_sources
-- 
2.43.0


From bc1e6ef55ad65464a1fe8a52dd7f159c2792468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:09 +0000
Subject: [PATCH 103/109] fix: do not give up forcing parsing because of
 unrelated expressions that can't be expanded

---
 specfile/spec_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index f097c38..749609b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -255,6 +255,13 @@ class SpecParser:
                 # the directory doesn't exist or is not accessible
                 return False
 
+        def try_expand(expression):
+            try:
+                return Macros.expand(expression)
+            except RPMException:
+                # the expression could be in a false branch of a condition
+                return None
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -263,7 +270,7 @@ class SpecParser:
             for tag in Tags.parse(Section("package", data=content.splitlines())):
                 # we can expand macros here because the first non-build parse,
                 # even though it failed, populated the macro context
-                if Macros.expand(tag.value):
+                if try_expand(tag.value) != "":
                     # tag value doesn't expand to an empty string, so it won't
                     # break parsing, we can skip this tag
                     continue
@@ -302,7 +309,7 @@ class SpecParser:
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
                 # even though it failed, populated the macro context
-                source = Path(Macros.expand(arg).strip())
+                source = Path((try_expand(arg) or "").strip())
                 # ignore files outside of sourcedir
                 if is_in_sourcedir(source):
                     sources.add(source.name)
@@ -320,7 +327,7 @@ class SpecParser:
                 if isinstance(node, BuiltinMacro) and node.name == "load":
                     # we can expand macros here because the first non-build parse,
                     # even though it failed, populated the macro context
-                    source = Path(Macros.expand(node.body))
+                    source = Path(try_expand(node.body) or "")
                     # ignore files outside of sourcedir
                     if is_in_sourcedir(source):
                         sources.add(source.name)
-- 
2.43.0


From 1c4e793d75f41f597789acc54eb58b239012239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:19 +0000
Subject: [PATCH 104/109] fix: force parsing also if files that are missing
 depend on other missing files

---
 specfile/spec_parser.py | 66 ++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 749609b..ca73b01 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -333,44 +333,48 @@ class SpecParser:
                         sources.add(source.name)
             return sources
 
-        tainted = False
-        try:
-            # do a non-build parse first, to get a list of sources
-            spec = get_rpm_spec(content, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE)
-            sources = {s for s, _, _ in spec.sources}
-            non_empty_sources = set()
-        except RPMException:
-            if not self.force_parse:
-                raise
-            else:
-                sources = collect_included_sources(content) | collect_loaded_sources(
-                    content
-                )
-                non_empty_sources = collect_sources_referenced_from_tags(content)
-                if not sources and not non_empty_sources:
-                    # no point in trying again
-                    raise
-                with self._make_dummy_sources(
-                    sources, non_empty_sources
-                ) as dummy_sources:
-                    if not dummy_sources:
-                        raise
+        sources: Set[str] = set()
+        non_empty_sources: Set[str] = set()
+        while True:
+            with self._make_dummy_sources(sources, non_empty_sources) as dummy_sources:
+                if dummy_sources:
                     filelist = "\n".join(str(ds) for ds in dummy_sources)
                     logger.warning(
                         f"Created dummy sources for nonexistent files:\n{filelist}"
                     )
-                    tainted = True
-                    # do a non-build parse again with dummy sources
+                tainted = bool(dummy_sources)
+                try:
+                    # do a non-build parse first (with dummy sources, if parsing is being forced),
+                    # to get a list of sources
                     spec = get_rpm_spec(
                         content, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE
                     )
-                    # spec.sources contains also previously collected
-                    # non empty sources (if any), ignore them
-                    sources |= {
-                        s
-                        for s, _, _ in spec.sources
-                        if get_filename_from_location(s) not in non_empty_sources
-                    }
+                    break
+                except RPMException:
+                    if not self.force_parse:
+                        raise
+                    required_sources = collect_included_sources(
+                        content
+                    ) | collect_loaded_sources(content)
+                    required_non_empty_sources = collect_sources_referenced_from_tags(
+                        content
+                    )
+                    if (
+                        required_sources <= sources
+                        and required_non_empty_sources <= non_empty_sources
+                    ):
+                        # no point in trying again
+                        raise
+            # every attempt can get further and reveal more sources
+            sources |= required_sources
+            non_empty_sources |= required_non_empty_sources
+        # spec.sources contains also previously collected
+        # non empty sources (if any), ignore them
+        sources |= {
+            s
+            for s, _, _ in spec.sources
+            if get_filename_from_location(s) not in non_empty_sources
+        }
 
         # workaround RPM lua tables feature/bug
         #
-- 
2.43.0


From 2401b166cb0ec7751142f56c9125a4a316841c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:15 +0000
Subject: [PATCH 105/109] fix: Recognize conditional macro expansions
 surrounded by whitespace

---
 specfile/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 63bc89a..1b92d61 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -319,8 +319,12 @@ def split_conditional_macro_expansion(value: str) -> Tuple[str, str, str]:
         Tuple of body, prefix, suffix. Prefix and suffix will be empty if the passed string
         isn't a conditional macro expansion.
     """
+    # the expansion can be indented or followed by whitespace
+    _, indentation, expansion, whitespace, _ = re.split(
+        r"^(\s*)(.*?)(\s*)\Z", value, maxsplit=1, flags=re.DOTALL
+    )
     try:
-        nodes = ValueParser.parse(value)
+        nodes = ValueParser.parse(expansion)
     except UnterminatedMacroException:
         return value, "", ""
     if len(nodes) != 1:
@@ -328,7 +332,11 @@ def split_conditional_macro_expansion(value: str) -> Tuple[str, str, str]:
     node = nodes[0]
     if not isinstance(node, ConditionalMacroExpansion):
         return value, "", ""
-    return "".join(str(n) for n in node.body), f"%{{{node.prefix}{node.name}:", "}"
+    return (
+        "".join(str(n) for n in node.body),
+        f"{indentation}%{{{node.prefix}{node.name}:",
+        f"}}{whitespace}",
+    )
 
 
 # Python 3.6-3.8 do not allow creating a generic UserList at runtime.
-- 
2.43.0


From 978e8d650d9f46e12ed68d26a9a352486ca65a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:49 +0000
Subject: [PATCH 106/109] fix: do not confuse values with placeholders when
 formatting representations

---
 specfile/formatter.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/specfile/formatter.py b/specfile/formatter.py
index 6dd8811..efbb723 100644
--- a/specfile/formatter.py
+++ b/specfile/formatter.py
@@ -35,6 +35,8 @@ def format_expression(expression: str, line_length_threshold: int = 80) -> str:
             result += repr(node.s)
         elif isinstance(node, ast.Num):
             result += repr(node.n)
+        elif isinstance(node, ast.Name) and node.id in placeholders:
+            result += placeholders[node.id]
         elif isinstance(node, (ast.Tuple, ast.List, ast.Dict, ast.Call)):
             if isinstance(node, ast.Tuple):
                 start, end = "(", ")" if multiline or len(node.elts) != 1 else ",)"
@@ -90,7 +92,7 @@ def format_expression(expression: str, line_length_threshold: int = 80) -> str:
                 level += 1
         return None
 
-    placeholders = []
+    placeholders = {}
     while True:
         try:
             tree = ast.parse(expression, mode="eval")
@@ -108,9 +110,9 @@ def format_expression(expression: str, line_length_threshold: int = 80) -> str:
             if not index:
                 raise
             value = lines[e.lineno - 1][e.offset - 1 : index]
-            # convert the value to a string literal
-            placeholder = repr(value)
-            placeholders.append((placeholder, value))
+            # use a name rather than a string literal, it can't appear in any value
+            placeholder = f"__placeholder_{len(placeholders)}__"
+            placeholders[placeholder] = value
             lines[e.lineno - 1] = (
                 lines[e.lineno - 1][: e.offset - 1]
                 + placeholder
@@ -119,11 +121,7 @@ def format_expression(expression: str, line_length_threshold: int = 80) -> str:
             expression = "\n".join(lines)
         else:
             break
-    result = fmt(tree.body)
-    # revert placeholders
-    for placeholder, value in placeholders:
-        result = result.replace(placeholder, value, 1)
-    return result
+    return fmt(tree.body)
 
 
 def formatted(function: Callable[..., str]) -> Callable[..., str]:
-- 
2.43.0


From 6c18848dc7a13e4975a725710cd10d68eef1b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 107/109] fix: %prep is a script section

---
 specfile/constants.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/constants.py b/specfile/constants.py
index 505271c..7ec0270 100644
--- a/specfile/constants.py
+++ b/specfile/constants.py
@@ -49,6 +49,7 @@ SIMPLE_SCRIPT_SECTIONS = {
     "conf",
     "generate_buildrequires",
     "install",
+    "prep",
 }
 
 SCRIPT_SECTIONS = {
-- 
2.43.0


From 6764abe4196284ac0c1c92d5434e07d77ab5dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:24 +0000
Subject: [PATCH 108/109] fix: split parsed content only on newlines in
 parsed_sections

---
 specfile/specfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index ff6ddee..dec74c9 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -281,7 +281,12 @@ class Specfile:
     @property
     def parsed_sections(self) -> Sections:
         """Parsed spec file sections."""
-        return Sections.parse(self.rpm_spec.parsed.splitlines())
+        # do not use `splitlines()`, it doesn't split only on newlines
+        content = self.rpm_spec.parsed
+        lines = content.split("\n")
+        if content.endswith("\n"):
+            lines.pop()
+        return Sections.parse(lines)
 
     @ContextManager
     def tags(
-- 
2.43.0


From 7f4671194f0b37336be2bb384676f55ab0a4f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 109/109] fix: don't consider shell and expression expansions
 equal

ExpressionExpansion is a subclass of ShellExpansion, so comparison of
the two kinds of nodes fell back to comparing their bodies.
---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index d859728..ccd0129 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -58,7 +58,7 @@ class ShellExpansion(Node):
         return f"%({self.body})"
 
     def __eq__(self, other: object) -> bool:
-        if not isinstance(other, self.__class__):
+        if type(other) is not type(self):
             return NotImplemented
         return self.body == other.body
 
-- 
2.43.0

