From 6e0a3329570445ed919656a560a14965645fee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 01/17] fix: -r takes an argument, like --regex

Without the colon getopt leaves optarg null and ParseRegexDialect compares it.
---
 iwyu_globals.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index d59aa6a..13b9fbf 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -253,7 +253,7 @@ int CommandlineFlags::ParseArgv(int argc, char** argv) {
     {"experimental", required_argument, nullptr, 'p'},
     {nullptr, 0, nullptr, 0}
   };
-  static const char shortopts[] = "v:c:m:d:nr";
+  static const char shortopts[] = "v:c:m:d:nr:";
   while (true) {
     switch (getopt_long(argc, argv, shortopts, longopts, nullptr)) {
       case 'c': AddGlobToReportIWYUViolationsFor(optarg); break;
-- 
2.43.0


From 610cff78b004910b766006ae79a757dad9f3c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 02/17] fix: do not read past a response file that ends in a
 backslash

The escape consumed the terminating NUL, and the loop went on behind it;
the last argument was lost or grew by whatever followed in memory.
---
 iwyu_driver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index 6b52c34..9bf5996 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -149,9 +149,10 @@ void ExpandArgsFromBuf(const char *Arg,
     }
 
     if (*P == '\\') {
-      ++P;
-      if (*P != '\0')
+      if (P[1] != '\0') {
+        ++P;
         CurArg.push_back(*P);
+      }
       continue;
     }
     CurArg.push_back(*P);
-- 
2.43.0


From 82d3a448b0d7d24eb3f948c4946850b1a1ef106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 03/17] fix: match whole strings for LLVM regexes with
 alternation

Anchored("a|b") is "^a|b$", which matches any string starting with a.
---
 iwyu_regex.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 09aee7b..4c22013 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -14,6 +14,7 @@
 
 #include "iwyu_port.h"
 #include "iwyu_string_util.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Regex.h"
 
@@ -56,8 +57,11 @@ bool RegexMatch(RegexDialect dialect, const std::string& str,
   switch (dialect) {
     case RegexDialect::LLVM: {
       // llvm::Regex::match has search semantics; ensure anchored.
+      // Anchors bind tighter than alternation, so also check that the match
+      // covers all of str.
       llvm::Regex r(Anchored(pattern));
-      return r.match(str);
+      llvm::SmallVector<llvm::StringRef, 8> matches;
+      return r.match(str, &matches) && matches[0].size() == str.size();
     }
 
     case RegexDialect::ECMAScript: {
-- 
2.43.0


From 01febd7b9828f5e34fcf111b8b38afeaad108f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 04/17] fix: look for the next token in the macro being defined

The iterator runs over the tokens of defined_macro; comparing it with the
end of the referenced macro reads past the end of the former.
---
 iwyu_preprocessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9acde4f..8cd4ba7 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -730,7 +730,7 @@ void IwyuPreprocessorInfo::MacroDefined(const Token& id,
     // A token with an associated macro it will only be considered for macro
     // expansion if it's object-like or function-like and followed by l-paren.
     if (macro->isFunctionLike() &&
-        GetNextMacroTokenKind(macro, it) != clang::tok::l_paren) {
+        GetNextMacroTokenKind(defined_macro, it) != clang::tok::l_paren) {
       continue;
     }
 
-- 
2.43.0


From 92b882920b03333f0cb9d0412805b155ac6e91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 05/17] fix: record the path of the befriended header, not of
 its includer

---
 iwyu_include_picker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..ffc883c 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1887,7 +1887,7 @@ vector<string> IncludePicker::GetCandidateHeadersForFilepathIncludedFrom(
   if (headers_with_includer_as_friend != nullptr &&
       ContainsKey(*headers_with_includer_as_friend, included_filepath)) {
     mapped_includes.push_back(
-        MappedInclude(quoted_includee, including_filepath));
+        MappedInclude(quoted_includee, included_filepath));
   } else {
     mapped_includes =
         GetCandidateHeadersForFilepath(included_filepath, including_filepath);
-- 
2.43.0


From bc3fff004af27ad9e56ff129fc3d3b27474a7b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 06/17] fix: close cyclic include mappings completely

With a->b, b->a, a->c, c->d the depth-first walk left d out of the closure of b.
---
 iwyu_include_picker.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index ffc883c..6154912 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1338,6 +1338,19 @@ void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
   vector<string> node_stack;
   for (const IncludePicker::IncludeMap::value_type& includes : *filename_map)
     MakeNodeTransitive(filename_map, &seen_nodes, &node_stack, includes.first);
+
+  // A node visited while a cycle through it was still being calculated can
+  // lack nodes that were added to its values later on.
+  bool changed = true;
+  while (changed) {
+    changed = false;
+    for (IncludePicker::IncludeMap::value_type& includes : *filename_map) {
+      const size_t old_size = includes.second.size();
+      ExpandOnce(*filename_map, &includes.second);
+      if (includes.second.size() != old_size)
+        changed = true;
+    }
+  }
 }
 
 // Get a scalar value from a YAML node.
-- 
2.43.0


From 2284183a232fa8053af24f8a0151d598a5d43752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:28 +0000
Subject: [PATCH 07/17] fix: do not truncate a file whose new contents cannot
 be encoded

---
 fix_includes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..9e39be6 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -602,12 +602,13 @@ def _ReadFile(filename, fileinfo):
 def _WriteFile(filename, fileinfo, file_lines):
   """Write the given file-lines to the file."""
   try:
+    # file_lines already have line endings, so join with ''.
+    # Encode before opening the file, because that truncates it.
+    content = ''.join(file_lines)
+    content = content.encode(fileinfo.encoding)
     with open(filename, 'wb') as f:
-      # file_lines already have line endings, so join with ''.
-      content = ''.join(file_lines)
-      content = content.encode(fileinfo.encoding)
       f.write(content)
-  except (IOError, OSError) as why:
+  except (IOError, OSError, UnicodeError) as why:
     print("Error writing '%s': %s" % (filename, why))
 
 
-- 
2.43.0


From 59091dc4ab617644f47c310a63a6d581ee996266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 08/17] fix: number the lines of a file the way IWYU does

splitlines() also splits at form feeds, vertical tabs, NEL and the Unicode
separators, so all later deletions hit the wrong lines.
---
 fix_includes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 9e39be6..e8a93be 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -61,6 +61,7 @@ __author__ = 'csilvers@google.com (Craig Silverstein)'
 
 import difflib
 import argparse
+import io
 import os
 import re
 import sys
@@ -588,12 +589,15 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
-      # endings.  Later in WriteFile, they will be used as-is.
+      # Use newline='' to keep the original line endings.  Later in
+      # WriteFile, they will be used as-is.
       # This will reduce spurious changes to the original files.
       # The lines we add will have the linesep determined by
       # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # Do not use splitlines, it also splits at form feeds and Unicode
+      # line separators, where IWYU does not count a new line.
+      content = content.decode(fileinfo.encoding)
+      return list(io.StringIO(content, newline=''))
   except (IOError, OSError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From 8dc42014b5a205b227193224f388bc4cad713465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 09/17] fix: skip a file that cannot be decoded instead of
 aborting the run

---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index e8a93be..c70aa4d 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -598,7 +598,7 @@ def _ReadFile(filename, fileinfo):
       # line separators, where IWYU does not count a new line.
       content = content.decode(fileinfo.encoding)
       return list(io.StringIO(content, newline=''))
-  except (IOError, OSError) as why:
+  except (IOError, OSError, UnicodeError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
 
-- 
2.43.0


From bcb323a049174927f48f22bd7b12e8b921cd206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 10/17] fix: format removals without line numbers

---
 iwyu_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18cf5ff..1a3f37d 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -95,8 +95,9 @@ def clang_formatter(output, style):
         elif state[0] == REMOVE:
             match = LINES_RE.match(line)
             line_no = match.group(2) if match else '1'
+            removal = match.group(1) if match else line
             formatted.append("%s:%s:1: %s: superfluous '%s'" %
-                             (state[1], line_no, style, match.group(1)))
+                             (state[1], line_no, style, removal))
 
     return os.linesep.join(formatted)
 
-- 
2.43.0


From 76d3612492148e3ff77baf52754f36ece6365020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 11/17] fix: reject a negative number of jobs

execute() never got to start the last invocation and looped forever.
---
 iwyu_tool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 1a3f37d..3dfbddc 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -523,7 +523,9 @@ def _bootstrap(sys_argv):
     args = parser.parse_args(argv)
 
     jobs = args.jobs
-    if jobs == 0:
+    if jobs < 0:
+        parser.error('number of jobs must not be negative')
+    elif jobs == 0:
         jobs = os.cpu_count() or 1
 
     return main(args.dbpath, args.source, args.verbose,
-- 
2.43.0


From 3f0d8d5f86f035861b27637c58641f73254b7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 12/17] fix: report a malformed compilation database

---
 iwyu_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 3dfbddc..f87947f 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -445,7 +445,7 @@ def main(compilation_db_path, source_files, verbose, formatter, jobs,
         compilation_db_path = os.path.realpath(compilation_db_path)
         with open(compilation_db_path, 'r') as fileobj:
             compilation_db = json.load(fileobj)
-    except IOError as why:
+    except (IOError, ValueError) as why:
         print('error: failed to parse compilation database: %s' % why,
               file=sys.stderr)
         return 1
-- 
2.43.0


From 206f4f2b9e29742f966231182f4fb741fa886b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 13/17] fix: replace whole strings for ECMAScript regexes with
 alternation

---
 iwyu_regex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 4c22013..dcc4c39 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -83,8 +83,9 @@ std::string RegexReplace(RegexDialect dialect, const std::string& str,
     }
 
     case RegexDialect::ECMAScript: {
-      // std::regex_replace has search semantics; ensure anchored.
-      std::regex r(Anchored(pattern), std::regex_constants::ECMAScript);
+      // std::regex_replace has search semantics; ensure anchored.  Group the
+      // pattern, because anchors bind tighter than alternation.
+      std::regex r("^(?:" + pattern + ")$", std::regex_constants::ECMAScript);
       return std::regex_replace(str, r, replacement,
                                 std::regex_constants::format_first_only);
     }
-- 
2.43.0


From a865b113c6182ce00e918bd593b1f8779054aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 14/17] fix: refuse #include line numbers past the end of the
 file

They raised IndexError, which aborted the run for all remaining files.
---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index c70aa4d..a1e21ee 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -770,6 +770,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
-- 
2.43.0


From f185281aa15a4c22d0a1343f7d482243423b9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 15/17] fix: count the edits whatever the verbosity

With --verbose=0 no edit was counted, so --error never took effect.
---
 iwyu_output.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index be3e0fa..1059f74 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2100,24 +2100,21 @@ size_t PrintableDiffs(const string& filename,
     sorted_lines.insert(make_pair(GetSortKey(line, aqi, file_info), &line));
   }
 
-  // First, check if there are no adds or deletes.  If so, we print a
+  // First, count the adds and deletes.  If there are none, we print a
   // shorter summary line.
-  bool no_adds_or_deletes = true;
+  size_t num_edits = 0;
   for (const auto& key_line : sorted_lines) {
     const OneIncludeOrForwardDeclareLine* line = key_line.second;
     if ((line->is_desired() && !line->is_present()) || // add
         (line->is_present() && !line->is_desired())) { // delete
-      no_adds_or_deletes = false;
-      break;
+      ++num_edits;
     }
   }
-  if (no_adds_or_deletes && !GlobalFlags().update_comments) {
+  if (num_edits == 0 && !GlobalFlags().update_comments) {
     output = "\n(" + filename + " has correct #includes/fwd-decls)\n";
     return 0;
   }
 
-  size_t num_edits = 0;
-
   // First, new desired includes and forward-declares.
   if (ShouldPrint(1)) {
     output_lines.push_back(
@@ -2127,7 +2124,6 @@ size_t PrintableDiffs(const string& filename,
       if (line->is_desired() && !line->is_present()) {
         output_lines.push_back(
           PrintableIncludeOrForwardDeclareLine(*line, aqi));
-        ++num_edits;
       }
     }
   }
@@ -2142,8 +2138,6 @@ size_t PrintableDiffs(const string& filename,
         output_lines.push_back(
             PrintableIncludeOrForwardDeclareLine(*line, aqi));
         output_lines.back().add_prefix("- ");
-
-        ++num_edits;
       }
     }
   }
-- 
2.43.0


From 647d6ca678fffdb4f97907aeb5f08cf9635b67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 16/17] fix: keep protected includes under the name they
 already have

---
 iwyu_include_picker.h | 12 ++++++------
 iwyu_preprocessor.cc  | 12 ++++++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 44275e1..b9bde09 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -193,6 +193,12 @@ class IncludePicker {
                                         const string& use_path,
                                         const string& decl_filepath) const;
 
+  // Given an includer-pathname and includee-pathname, return the
+  // quoted-include of the includee, as written in the includer, or
+  // "" if it's not found for some reason.
+  string MaybeGetIncludeNameAsWritten(const string& includer_filepath,
+                                      const string& includee_filepath) const;
+
  private:
   // Private implementation of mapping file parser, which takes
   // mapping file search path to allow recursion that builds up
@@ -247,12 +253,6 @@ class IncludePicker {
   vector<MappedInclude> GetPublicValues(const IncludeMap& m,
                                         const string& key) const;
 
-  // Given an includer-pathname and includee-pathname, return the
-  // quoted-include of the includee, as written in the includer, or
-  // "" if it's not found for some reason.
-  string MaybeGetIncludeNameAsWritten(const string& includer_filepath,
-                                      const string& includee_filepath) const;
-
   // Given a collection of MappedIncludes, and a path that might include them,
   // choose the best quoted include form for each MappedInclude.
   vector<string> BestQuotedIncludesForIncluder(
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 8cd4ba7..b3238ab 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -540,19 +540,23 @@ void IwyuPreprocessorInfo::FinalizeProtectedIncludes() {
     for (OptionalFileEntryRef include :
          includer.direct_includes_as_fileentries()) {
       const string includee_path = GetFilePath(include);
+      // Keep the include under the name it already has; any other name would
+      // be reported as an include to add.
+      string quoted_include = GlobalIncludePicker().MaybeGetIncludeNameAsWritten(
+          includer_path, includee_path);
+      if (quoted_include.empty())
+        quoted_include = ConvertToQuotedInclude(includee_path);
       if (GlobalIncludePicker().HasMapping(includee_path, includer_path)) {
         // If includer re-exports includee, that counts as a "use" of it, so
         // protect the include.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(include, quoted_include);
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
             << includee_path << " (reason: re-exports)\n";
       } else if (always_keep_files_.count(include) > 0) {
         // Includee itself contains an "always_keep" pragma that protects it
         // from removal in all includers.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(include, quoted_include);
         includer.ReportKnownDesiredFile(include);
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
-- 
2.43.0


From e3fb86dcc25ccd653d849428a005f8a42dbad8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 17/17] fix: keep a trailing argument of backslashes only

win_split appended buffered backslashes to the last argument only if that
had other characters, so a last argument that consists of backslashes was
lost.
---
 iwyu_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index f87947f..2d0bd7d 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -198,8 +198,8 @@ def win_split(cmdline):
                 arg += c
                 backslashes = 0
 
+        arg += '\\' * backslashes
         if arg:
-            arg += '\\' * backslashes
             yield arg
 
     return list(split_iter(cmdline))
-- 
2.43.0

