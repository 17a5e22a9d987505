From 9629f53c076d42a1fa8a283b822db5f4746bfd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 01/80] fix: drop blank lines at the start of a listfile

Two or more newlines at the start of a listfile were written as one blank line,
which the next run then removed: formatting twice was needed to reach a
fixed point, and --check failed on a file that had just been formatted.
---
 cmakelang/format/formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 06a345b..2711fe1 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1754,7 +1754,10 @@ def create_box_tree(pnode):
       continue
 
     if (pchild.node_type == NodeType.WHITESPACE
-        and pchild.count_newlines() < 2):
+        and (pchild.count_newlines() < 2
+             # Blank lines at the start of the file are dropped, just as they
+             # would be if they were a single newline
+             or pchild.get_location().offset == 0)):
       continue
 
     if pchild.node_type in MATCH_TYPES:
-- 
2.43.0


From 4c2acfa619dcc038ede39263b7d3b101ec750ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 02/80] fix: account for the byte-order mark when copying an
 off region

Token offsets are counted from after the byte-order mark, but the region between
'# cmake-format: off' and 'on' was copied from the text including it, so the
copy was shifted by three bytes.
---
 cmakelang/format/formatter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 2711fe1..cf119d4 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1993,6 +1993,10 @@ class WriteContext(object):
     if sys.version_info[0] < 3:
       assert isinstance(infile_content, unicode)
 
+    # NOTE: token offsets do not count the byte-order mark
+    if infile_content.startswith("\ufeff"):
+      infile_content = infile_content[1:]
+
     # NOTE(josh): must be BytesIO because we use byte-offsets for raw
     # transcription (i.e. between cmake-format: off and cmake-format: on)
     self.infile = io.BytesIO(bytearray(infile_content, 'utf-8'))
-- 
2.43.0


From 8b473b1c7c16a64a2d54702c6e450b9818b54a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 03/80] fix: do not drop the text between two consecutive off
 switches

A second '# cmake-format: off' before the matching 'on' restarted the verbatim
region, and everything between the two switches was lost.
---
 cmakelang/format/formatter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index cf119d4..df96b66 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -780,6 +780,9 @@ class OnOffSwitchNode(LayoutNode):
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
+      if not ctx.is_active():
+        # This token is within the region that will be copied verbatim
+        return
       spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
-- 
2.43.0


From 62a3578e89d4f606224f0dcecc8567024b11ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 04/80] fix: keep the rest of the file when formatting is never
 turned back on

Everything after a '# cmake-format: off' without a matching 'on' was dropped
from the output.
---
 cmakelang/format/formatter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index df96b66..f6bb392 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1980,7 +1980,9 @@ class CursorFile(object):
       self._cursor[0] += copy_text.count('\n')
       self._cursor[1] = len(copy_text.split('\n')[-1])
 
-  def getvalue(self):
+  def getvalue(self, final_newline=True):
+    if not final_newline:
+      return self._fobj.getvalue()
     return self._fobj.getvalue() + self._config.format.endl
 
 
@@ -2020,4 +2022,8 @@ def write_tree(root_box, config, infile_content):
     logging.warning("'# cmake-format: off' is never turned back 'on'"
                     "at %d:%d", ctx.offswitch_location.line,
                     ctx.offswitch_location.col)
+    # Everything up to the end of the file is copied verbatim
+    ctx.infile.seek(ctx.offswitch_location.offset, 0)
+    ctx.outfile.write(ctx.infile.read().decode('utf-8'))
+    return ctx.outfile.getvalue(final_newline=False)
   return ctx.outfile.getvalue()
-- 
2.43.0


From 8f3d246a0d34ecf2057a08d32dcb6d0b591f59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 05/80] fix: use tab characters only for the indentation of the
 output

With use_tabchars every line of the output that started with spaces was
rewritten, including the lines of quoted and bracket arguments, and those
between '# cmake-format: off' and 'on'.
---
 cmakelang/format/__main__.py  |  1 -
 cmakelang/format/formatter.py | 52 ++++++++++++++---------------------
 2 files changed, 21 insertions(+), 32 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index bbcbf98..89086f8 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -172,7 +172,6 @@ def process_file(config, infile_content, dump=None):
   if config.encode.emit_byteorder_mark:
     outstr = "\ufeff" + outstr
 
-  outstr = formatter.replace_with_tabs(outstr, config)
   return (outstr, box_tree.reflow_valid)
 
 
diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index f6bb392..deaa7bf 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -110,40 +110,27 @@ def normalize_line_endings(instr):
   return re.sub('[ \t\f\v]*((\r?\n)|(\r\n?))', '\n', instr)
 
 
-def count_indentation(linestr):
-  """return the number of spaces at the start of the line"""
-  for idx, char in enumerate(linestr):
-    if char != ' ':
-      return idx
-  return 0
-
-
-def replace_with_tabs(content, config):
+def get_indentation(num_spaces, config):
   """
-  Apply the tab policy to `content`. If config.use_tabchars is true, then
-  replace spaces at the beginning of every line with tabs according to
+  Return the whitespace used to indent a line by `num_spaces` columns. If
+  config.use_tabchars is true, then this uses tabs according to
   config.tab_size and config.fractional_tab_policy.
   """
   if not config.format.use_tabchars:
-    return content
-
-  outlines = []
-  for inline in content.split("\n"):
-    num_spaces = count_indentation(inline)
-    num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
-    outline = "\t" * num_tabs
-    if fractional:
-      if config.format.fractional_tab_policy == "use-space":
-        outline += " " * fractional
-      elif config.format.fractional_tab_policy == "round-up":
-        outline += "\t"
-      else:
-        raise UserError(
-            "Invalid fractional_tab_policy='{}'"
-            .format(config.format.fractional_tab_policy))
-    outline += inline[num_spaces:]
-    outlines.append(outline)
-  return "\n".join(outlines)
+    return " " * num_spaces
+
+  num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
+  indentation = "\t" * num_tabs
+  if fractional:
+    if config.format.fractional_tab_policy == "use-space":
+      indentation += " " * fractional
+    elif config.format.fractional_tab_policy == "round-up":
+      indentation += "\t"
+    else:
+      raise UserError(
+          "Invalid fractional_tab_policy='{}'"
+          .format(config.format.fractional_tab_policy))
+  return indentation
 
 
 def need_paren_space(spelling, config):
@@ -1953,7 +1940,10 @@ class CursorFile(object):
 
     cols = (cursor[1] - self._cursor[1])
     if cols:
-      self._fobj.write(' ' * cols)
+      if self._cursor[1] == 0:
+        self._fobj.write(get_indentation(cols, self._config))
+      else:
+        self._fobj.write(' ' * cols)
       self._cursor[1] += cols
 
     lines = text.split('\n')
-- 
2.43.0


From 331f0a37b6e3ed54e25ee18beed34b315ca3251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 06/80] fix: keep the carriage return that follows an off
 switch

The token of '# cmake-format: off' included the carriage return of a windows
line ending, which was then missing from the verbatim copy of the region.
---
 cmakelang/lex/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index f7ddcb9..a884d27 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -172,7 +172,7 @@ def tokenize(contents):
       # NOTE(josh): don't match '\s' here or we'll miss some newline tokens
       # TODO(josh): should we match unicode whitespace too?
       (r"[ \t\f\v]+", lambda s, t: (TokenType.WHITESPACE, t)),
-      (r"#\s*(cmake-format|cmf): off[^\n]*",
+      (r"#\s*(cmake-format|cmf): off[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_OFF, t)),
       (r"#\s*(cmake-format|cmf): on[^\n]*",
        lambda s, t: (TokenType.FORMAT_ON, t)),
-- 
2.43.0


From 028e7616b5d6c9a016e6b335065a02da574f8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 07/80] fix: keep whitespace at the end of the lines of
 multi-line arguments

Whitespace in front of a newline in a quoted or bracket argument is part of its
value, but was removed.
---
 cmakelang/format/formatter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index deaa7bf..cd1b068 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -110,6 +110,14 @@ def normalize_line_endings(instr):
   return re.sub('[ \t\f\v]*((\r?\n)|(\r\n?))', '\n', instr)
 
 
+def normalize_argument(instr):
+  """
+  Replace line endings within an argument with unix line endings. Any other
+  whitespace, even at the end of a line, is part of the value of the argument.
+  """
+  return re.sub('\r\n?', '\n', instr)
+
+
 def get_indentation(num_spaces, config):
   """
   Return the whitespace used to indent a line by `num_spaces` columns. If
@@ -646,7 +654,7 @@ class ScalarNode(LayoutNode):
 
     # This might be a multiline string or a multiline bracket argument. In
     # that case we need to normalize line endings and flow each line
-    lines = normalize_line_endings(token.spelling).split('\n')
+    lines = normalize_argument(token.spelling).split('\n')
     line = lines.pop(0)
     cursor[1] += len(line)
     self._colextent = cursor[1]
@@ -685,7 +693,7 @@ class ScalarNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
-    spelling = normalize_line_endings(token.spelling)
+    spelling = normalize_argument(token.spelling)
     if self.node_type == NodeType.FUNNAME:
       command_case = config.resolve_for_command(
           token.spelling, "format.command_case")
-- 
2.43.0


From 0f2f6c804298630120b8cacddf9061f2ee00bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 08/80] fix: do not fail on add_library(<name>) at the end of
 the file

---
 cmakelang/parse/funs/add_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index bff1df7..64784c3 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -264,7 +264,8 @@ def parse_add_library(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling or "${" in third_token.spelling:
+  if "${" in second_token.spelling or (
+      third_token is not None and "${" in third_token.spelling):
     sortable = False
   return parse_add_library_standard(ctx, tokens, breakstack, sortable)
 
-- 
2.43.0


From 688f0e91a419dc1bd8c1ef52fc74b93cfb4c8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 09/80] fix: recognise the sort tag in add_executable()

The condition for '# cmake-format: sort' repeated the one for 'unsort'.
---
 cmakelang/parse/funs/add_executable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 3a59c63..f1a356a 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -97,7 +97,7 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       if state_ > parsing_name:
         if get_tag(tokens[0]) in ("unsort", "unsortable"):
           sortable = False
-        elif get_tag(tokens[0]) in ("unsort", "unsortable"):
+        elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
       child = TreeNode(NodeType.COMMENT)
       active_depth.children.append(child)
-- 
2.43.0


From 942b8bb04aa168b847ad3dced2a1f9cde2c73f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 10/80] fix: do not sort arguments when enable_sort is false

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index cd1b068..4028fa5 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1216,7 +1216,8 @@ class PargGroupNode(LayoutNode):
     return self.children[-1].has_terminal_comment()
 
   def lock(self, config, stmt_depth=0):
-    if (config.format.autosort and
+    if (config.format.enable_sort and
+        config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
         self.pnode.sortable):
       self._children = sort_arguments(self._children)
-- 
2.43.0


From 7c6f610ee82c93ffd2348c317dc401e6b2bcf0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 11/80] fix: accept flags in ctest_memcheck()

The flags (APPEND, QUIET) are positional arguments, but the positional
count was zero, so 'ctest_memcheck(BUILD foo APPEND)' was an internal error.
---
 cmakelang/parse/funs/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/random.py b/cmakelang/parse/funs/random.py
index 3ee54aa..e580763 100644
--- a/cmakelang/parse/funs/random.py
+++ b/cmakelang/parse/funs/random.py
@@ -139,7 +139,7 @@ def parse_ctest_memcheck(ctx, tokens, breakstack):
       "DEFECT_COUNT": PositionalParser(1),
   }
   flags = ["APPEND", "QUIET"]
-  return StandardArgTree.parse(ctx, tokens, 0, kwargs, flags, breakstack)
+  return StandardArgTree.parse(ctx, tokens, "+", kwargs, flags, breakstack)
 
 
 def parse_ctest_read_custom_files(ctx, tokens, breakstack):
-- 
2.43.0


From 98c6167469c1c41280151c8462b941a213bac949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 12/80] fix: a word does not begin with a backslash

The character range 'A-z' also contains [ \ ] ^ and the backtick, so that an
unquoted argument that begins with an escape sequence ('\ x', '\(') was
split after the backslash.
---
 cmakelang/lex/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index a884d27..9424711 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -147,14 +147,14 @@ def tokenize(contents):
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From ba8196301272324580079318ea69d11d41fd20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 13/80] fix: any character may be escaped in an unquoted
 argument

'foo\.bar' was split into two arguments before the backslash.
---
 cmakelang/lex/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 9424711..706ec48 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -110,10 +110,11 @@ def tokenize(contents):
           r'("[^"\\]*(?:\\.[^"\\]*)*")',
           # Any element except whitespace or one of '()#"\'
           r'([^\s\(\)#"\\])',
-          # Escape sequences
+          # Escape sequences. Any character can be escaped (whether or not the
+          # result is meaningful is only decided when it is evaluated).
           # https://cmake.org/cmake/help/v3.0/manual/
           #   cmake-language.7.html#grammar-token-escape_sequence
-          r'(\\[\(\)#" \\\$@^trn;])'
+          r'(\\[^\r\n])'
       ])
   )
 
@@ -123,10 +124,11 @@ def tokenize(contents):
       "|".join([
           # Any element except whitespace or one of '()#"\'
           r'([^\s\(\)#"\\])',
-          # Escape sequences
+          # Escape sequences. Any character can be escaped (whether or not the
+          # result is meaningful is only decided when it is evaluated).
           # https://cmake.org/cmake/help/v3.0/manual/
           #   cmake-language.7.html#grammar-token-escape_sequence
-          r'(\\[\(\)#" \\\$@^trn;])'
+          r'(\\[^\r\n])'
       ])
   )
 
-- 
2.43.0


From 0576299e80c266ade095f220d38c81604fcffc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 14/80] fix: a bracket argument may be followed by a comment

The look-ahead at the end of the bracket argument did not allow '#', so the
scanner went on to the next bracket of the same length and swallowed the
text in between.
---
 cmakelang/lex/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 706ec48..6ed9e74 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -144,7 +144,7 @@ def tokenize(contents):
       (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # bracket argument
-      (r"(?<![^\s\(])\[(=*)\[.*?\]\1\](?![^\s\)])",
+      (r"(?<![^\s\(])\[(=*)\[(?:(?!\]\1\]).)*\]\1\](?![^\s\)#])",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
-- 
2.43.0


From 825dc5b334b2ee8af124dd3e2206dba6e4cac072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 15/80] fix: do not nest the (empty) argument list of a
 statement

When the name or the trailing comment of 'endforeach()' did not fit, the
parentheses of the statement ended up with an empty line between them.
---
 cmakelang/format/formatter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 4028fa5..82d404b 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -871,6 +871,11 @@ class StatementNode(LayoutNode):
     self._reflow_valid &= child.reflow_valid
     self._colextent = max(self._colextent, child.colextent)
 
+    if not children[0].children:
+      # There is nothing to nest, and nesting it anyway would leave an empty
+      # line between the parentheses.
+      self._wrap = False
+
     if self._wrap:
       column_cursor = start_cursor + (1, config.format.tab_size)
       cursor = Cursor(*column_cursor)
-- 
2.43.0


From f03feefa39ce2b3282da8b4247299abd013b6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 16/80] fix: recognise formatting switches in all argument
 lists

The switches in the arguments of add_library(), add_executable() and
set_target_properties() were taken for arguments, and code ended up in a
comment.
---
 cmakelang/parse/additional_nodes.py    | 8 +++++---
 cmakelang/parse/funs/add_executable.py | 8 +++++++-
 cmakelang/parse/funs/add_library.py    | 8 +++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index d843353..b8680a9 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -73,9 +73,11 @@ class TupleGroupNode(ArgGroupNode):
         continue
 
       # If it's a sentinel comment, then add it at the current depth
-      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
-                            lex.TokenType.FORMAT_ON):
-        tree.children.append(OnOffNode.consume(ctx, tokens))
+      if token.type in (lex.TokenType.FORMAT_OFF,
+                        lex.TokenType.FORMAT_ON):
+        child = OnOffNode()
+        tree.children.append(child)
+        child.children.append(token)
         continue
 
       if subtree is None:
diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index f1a356a..8f773bf 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -4,7 +4,7 @@ from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
@@ -104,6 +104,12 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                          lex.TokenType.FORMAT_ON):
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 64784c3..a76b721 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -4,7 +4,7 @@ from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
     get_tag,
@@ -78,6 +78,12 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in (TokenType.FORMAT_OFF,
+                          TokenType.FORMAT_ON):
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From 8da61abe6c86827b310be50cb4c023db59858977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 17/80] fix: keep comments between the two words of a property
 in their place

A comment between the name and the value of a property of
set_target_properties() was moved behind the value.
---
 cmakelang/parse/additional_nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index b8680a9..ac1ad2e 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -68,7 +68,7 @@ class TupleGroupNode(ArgGroupNode):
       if token.type in (lex.TokenType.COMMENT,
                         lex.TokenType.BRACKET_COMMENT):
         child = CommentNode()
-        tree.children.append(child)
+        active_depth.children.append(child)
         child.children.append(token)
         continue
 
@@ -76,7 +76,7 @@ class TupleGroupNode(ArgGroupNode):
       if token.type in (lex.TokenType.FORMAT_OFF,
                         lex.TokenType.FORMAT_ON):
         child = OnOffNode()
-        tree.children.append(child)
+        active_depth.children.append(child)
         child.children.append(token)
         continue
 
@@ -84,6 +84,7 @@ class TupleGroupNode(ArgGroupNode):
         subtree = PositionalGroupNode()
         subtree.spec = PositionalSpec(2, False, [], flags)
         tree.children.append(subtree)
+        active_depth = subtree
         ntup_consumed = 0
 
       # Otherwise is it is a positional argument, so add it to the tree as such
@@ -99,6 +100,7 @@ class TupleGroupNode(ArgGroupNode):
 
       if ntup_consumed >= ntup:
         npargs_consumed += 1
+        active_depth = tree
         subtree = None
 
     return tree
-- 
2.43.0


From 15de4c44d53787852b563f8a3830d7d87f1c902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 18/80] fix: honour on switches inside statements of an off
 region

A region that ended in the argument list of a statement that began in it
was extended to the end of the file, and closing parentheses of the
region were written twice.
---
 cmakelang/format/formatter.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 82d404b..98a80b4 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -619,6 +619,9 @@ class ParenNode(LayoutNode):
     return cursor + (0, 1)
 
   def write(self, config, ctx):
+    if not ctx.is_active():
+      return
+
     if self.node_type == NodeType.LPAREN:
       ctx.outfile.write_at(self.position, '(')
     elif self.node_type == NodeType.RPAREN:
@@ -985,11 +988,6 @@ class StatementNode(LayoutNode):
     self._colextent = max(self._colextent, rparen.colextent)
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(StatementNode, self).write(config, ctx)
-
 
 class AtWordStatementNode(LayoutNode):
   """
@@ -1050,11 +1048,6 @@ class AtWordStatementNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(AtWordStatementNode, self).write(config, ctx)
-
 
 class KwargGroupNode(LayoutNode):
   """
@@ -1468,11 +1461,6 @@ class ArgGroupNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ArgGroupNode, self).write(config, ctx)
-
 
 class ParenGroupNode(LayoutNode):
   """
@@ -1576,11 +1564,6 @@ class ParenGroupNode(LayoutNode):
       column_cursor[0] = cursor[0]
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ParenGroupNode, self).write(config, ctx)
-
 
 class BodyNode(LayoutNode):
   """
-- 
2.43.0


From 3240ac56246ab49fc2b3cebd5cbb1050660cefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 19/80] fix: keep comments next to each other in an argument
 list apart

A bracket comment followed by a line comment was dropped (or made the
formatter fail), and a line comment was appended to the line comment
above it when they were not aligned.
---
 cmakelang/format/formatter.py   |  4 +++-
 cmakelang/parse/simple_nodes.py | 13 ++++++++-----
 cmakelang/parse/util.py         |  8 ++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 98a80b4..5bbc451 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -173,7 +173,9 @@ def is_line_comment(node):
   if not node.children:
     return False
 
-  return node.children[-1].type == TokenType.COMMENT
+  # NOTE: the comment might be followed by the newline (and the indentation)
+  # that separates it from the next comment
+  return node.children[0].type == TokenType.COMMENT
 
 
 def get_pathstr(node_path):
diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index c971e19..e16f7a5 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -10,7 +10,7 @@ from cmakelang.parse.util import (
     COMMENT_TOKENS, WHITESPACE_TOKENS,
     are_column_aligned, next_is_trailing_comment,
     next_is_explicit_trailing_comment,
-    is_valid_trailing_comment
+    is_trailing_line_comment
 )
 from cmakelang.parse.common import NodeType, TreeNode
 
@@ -136,10 +136,13 @@ class CommentNode(TreeNode):
     node = cls()
     node.is_implicit_trailing = True
     parent.children.append(node)
-    comment_tokens = node.children
+    if tokens[0].type == lex.TokenType.BRACKET_COMMENT:
+      # Bracket comments get their own node (see `consume()`)
+      node.children.append(tokens.pop(0))
+      return
 
     comment_tokens = []
-    while tokens and is_valid_trailing_comment(tokens[0]):
+    while tokens and is_trailing_line_comment(tokens[0]):
       if (comment_tokens and
           not are_column_aligned(comment_tokens[-1], tokens[0])):
         break
@@ -152,7 +155,7 @@ class CommentNode(TreeNode):
       # a single block
       if (len(tokens) > 1 and
           tokens[0].type == lex.TokenType.NEWLINE and
-          is_valid_trailing_comment(tokens[1])):
+          is_trailing_line_comment(tokens[1])):
         node.children.append(tokens.pop(0))
 
       # Multiple comments separated only by one newline and some whitespace are
@@ -162,7 +165,7 @@ class CommentNode(TreeNode):
       elif (len(tokens) > 2 and
             tokens[0].type == lex.TokenType.NEWLINE and
             tokens[1].type == lex.TokenType.WHITESPACE and
-            is_valid_trailing_comment(tokens[2])):
+            is_trailing_line_comment(tokens[2])):
         node.children.append(tokens.pop(0))
         node.children.append(tokens.pop(0))
 
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 2f060be..50a9817 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -126,6 +126,14 @@ def is_valid_trailing_comment(token):
           not comment_is_tag(token))
 
 
+def is_trailing_line_comment(token):
+  """
+  Return true if the token can go on a trailing line comment
+  """
+  return (token.type is lex.TokenType.COMMENT
+          and is_valid_trailing_comment(token))
+
+
 def is_comment_matching_pattern(token, regex):
   """
   Return true if the token is an explicit trailing comment
-- 
2.43.0


From 15cbb9c8cd8835b8ef0b63a69716bdf472725f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 20/80] fix: no blank line before a parenthesised group that
 does not fit

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 5bbc451..2790099 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1536,7 +1536,7 @@ class ParenGroupNode(LayoutNode):
         child.statement_terminal = True
 
       cursor = child.reflow(stack_context, cursor, passno)
-      if not self._wrap:
+      if prev is not None and not self._wrap:
         # If we are in horizontal wrapping mode, then we need to check if the
         # child has overflowed the available columnt width. If so, then we need
         # to wrap to the next line and try again
-- 
2.43.0


From e7eb15f8334352e6a4f71647c06a7e47e61f8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 21/80] fix: do not sort sources that look like keywords

---
 cmakelang/parse/funs/add_executable.py | 4 ++++
 cmakelang/parse/funs/add_library.py    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 8f773bf..5de3058 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -71,6 +71,7 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
     tree.children.append(tokens.pop(0))
     continue
 
+  keywords = ("WIN32", "MACOSX_BUNDLE", "EXCLUDE_FROM_ALL", "IMPORTED", "ALIAS")
   state_ = parsing_name
   parg_group = None
   src_group = None
@@ -136,6 +137,9 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
         active_depth = src_group
         tree.children.append(src_group)
     elif state_ is parsing_sources:
+      if get_normalized_kwarg(tokens[0]) in keywords:
+        # If sorted to the front of the list, this source would become a keyword
+        src_group.sortable = False
       token = tokens.pop(0)
       child = TreeNode(NodeType.ARGUMENT)
       child.children.append(token)
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index a76b721..6d1c35e 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -49,6 +49,8 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
   active_depth = tree
 
   flags = ("STATIC", "SHARED", "MODULE", "OBJECT")
+  keywords = flags + ("EXCLUDE_FROM_ALL", "UNKNOWN", "IMPORTED", "ALIAS",
+                      "INTERFACE")
 
   while tokens:
     # This parse function breakson the first right paren, since parenthetical
@@ -116,6 +118,9 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       active_depth = src_group
       tree.children.append(src_group)
     elif state_ is parsing_sources:
+      if get_normalized_kwarg(tokens[0]) in keywords:
+        # If sorted to the front of the list, this source would become a keyword
+        src_group.sortable = False
       token = tokens.pop(0)
       child = TreeNode(NodeType.ARGUMENT)
       child.children.append(token)
-- 
2.43.0


From 47c9e99b086a6122af18353d6355b9359e571b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:51 +0000
Subject: [PATCH 22/80] fix: report unclosed blocks and incomplete statements
 with their location

---
 cmakelang/parse/body_nodes.py     | 23 +++++++++++++++++------
 cmakelang/parse/statement_node.py |  5 +++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/cmakelang/parse/body_nodes.py b/cmakelang/parse/body_nodes.py
index 4b7cef5..a7e44d8 100644
--- a/cmakelang/parse/body_nodes.py
+++ b/cmakelang/parse/body_nodes.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 import collections
 import logging
 
-from cmakelang.common import InternalError
+from cmakelang.common import InternalError, UserError
 from cmakelang import lex
 from cmakelang.parse.util import (
     COMMENT_TOKENS, ONOFF_TOKENS, WHITESPACE_TOKENS
@@ -84,6 +84,16 @@ FlowControlBlock = collections.namedtuple(
     "FlowControlBlock", ["open_stmt", "body", "close_stmt"])
 
 
+def check_closed(tokens, open_stmt):
+  """
+  Raise an error if there are no more tokens that could close the block
+  """
+  if not tokens:
+    raise UserError(
+        "Unexpected end of token stream: {}() at {} is never closed"
+        .format(open_stmt.get_funname(), open_stmt.get_location()))
+
+
 class FlowControlNode(TreeNode):
   """Parent node of a flow-control statement set, including at least one opening
      statement, a body, and a closing statement. if() tree's may contain
@@ -120,6 +130,7 @@ class FlowControlNode(TreeNode):
     node.children.append(open_stmt)
     body = BodyNode.consume(ctx, tokens, (endflow,))
     node.children.append(body)
+    check_closed(tokens, open_stmt)
     close_stmt = StatementNode.consume(ctx, tokens)
     node.children.append(close_stmt)
 
@@ -148,6 +159,7 @@ class IfBlockNode(FlowControlNode):
     while tokens and tokens[0].spelling.upper() != "ENDIF":
       open_stmt = StatementNode.consume(ctx, tokens)
       body = BodyNode.consume(ctx, tokens, breakset)
+      check_closed(tokens, open_stmt)
       tree.children.append(open_stmt)
       tree.children.append(body)
       if prev_open_stmt is not None:
@@ -157,10 +169,9 @@ class IfBlockNode(FlowControlNode):
       prev_open_stmt = open_stmt
       prev_body = body
 
-    if tokens:
-      close_stmt = StatementNode.consume(ctx, tokens)
-      tree.children.append(close_stmt)
-      tree.blocks.append(
-          FlowControlBlock(prev_open_stmt, prev_body, close_stmt))
+    close_stmt = StatementNode.consume(ctx, tokens)
+    tree.children.append(close_stmt)
+    tree.blocks.append(
+        FlowControlBlock(prev_open_stmt, prev_body, close_stmt))
 
     return tree
diff --git a/cmakelang/parse/statement_node.py b/cmakelang/parse/statement_node.py
index 256e33f..f4777c4 100644
--- a/cmakelang/parse/statement_node.py
+++ b/cmakelang/parse/statement_node.py
@@ -59,6 +59,11 @@ class StatementNode(TreeNode):
     while tokens and tokens[0].type in WHITESPACE_TOKENS:
       node.children.append(tokens.pop(0))
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream after {} at {}, expecting l-paren"
+          .format(funnode.token.spelling, funnode.get_location()))
+
     # TODO(josh): should the parens belong to the statement node or the
     # group node?
     if tokens[0].type != lex.TokenType.LEFT_PAREN:
-- 
2.43.0


From 667908a9b5001839222d01e4dc85e62ba1bcc957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:51 +0000
Subject: [PATCH 23/80] fix: spelling of keywords of add_library() and
 install()

---
 cmakelang/parse/funs/add_library.py | 2 +-
 cmakelang/parse/funs/install.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 6d1c35e..b8bfabd 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -144,7 +144,7 @@ def parse_add_library_imported(ctx, tokens, breakstack):
   return StandardArgTree.parse(
       ctx, tokens, npargs='+',
       kwargs={},
-      flags=["SHARED", "STATIC", "MODULE", "OBJECT", "UNKOWN", "IMPORTED",
+      flags=["SHARED", "STATIC", "MODULE", "OBJECT", "UNKNOWN", "IMPORTED",
              "GLOBAL"],
       breakstack=breakstack)
 
diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index b91bb73..08cccc9 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -217,7 +217,7 @@ def parse_install_directory(ctx, tokens, breakstack):
           "REGEX": PatternNode.parse,
       },
       flags=[
-          "USER_SOURCE_PERMISSIONS",
+          "USE_SOURCE_PERMISSIONS",
           "OPTIONAL",
           "MESSAGE_NEVER",
           "FILES_MATCHING",
-- 
2.43.0


From 74d9ff775c8623b8a269d46e5d37720ad6356ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 24/80] fix: recognise the forms of build_command() and
 cmake_parse_arguments()

---
 cmakelang/parse/funs/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 2ab3e56..a08c213 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,7 +30,7 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper not in kwargs:
+  if second_token is not None and second_token.spelling.upper() not in kwargs:
     ctx.lint_ctx.record_lint(
         "W0106", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
@@ -53,7 +53,7 @@ def parse_cmake_parse_arguments(ctx, tokens, breakstack):
   """
 
   first_token = get_nth_semantic_token(tokens, 0)
-  if first_token is not None and first_token.spelling.upper == "PARSE_ARGV":
+  if first_token is not None and first_token.spelling.upper() == "PARSE_ARGV":
     return StandardArgTree.parse(
         ctx, tokens, "6", {}, ["PARSE_ARGV"], breakstack)
   return StandardArgTree.parse(
-- 
2.43.0


From 84c67352bf8482787c4ce09914a945726e288e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 25/80] fix: report parentheses that are not closed with their
 location

---
 cmakelang/parse/argument_nodes.py | 7 ++++++-
 cmakelang/parse/funs/set.py       | 3 +++
 cmakelang/parse/statement_node.py | 5 +++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 7974758..6b036bd 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 import logging
 
 from cmakelang import lex
-from cmakelang.common import InternalError
+from cmakelang.common import InternalError, UserError
 from cmakelang.parse.printer import dump_tree_tostr
 from cmakelang.parse.util import (
     comment_belongs_up_tree,
@@ -489,6 +489,11 @@ class ParenGroupNode(TreeNode):
       subtree = ConditionalGroupNode.parse(ctx, tokens, [ParenBreaker()])
     tree.children.append(subtree)
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream: l-paren at {} is never closed"
+          .format(lparen.get_location()))
+
     if tokens[0].type != lex.TokenType.RIGHT_PAREN:
       raise ValueError(
           "Unexpected {} token at {}, expecting r-paren, got {}"
diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index c877bbe..539d556 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -85,6 +85,9 @@ def parse_set(ctx, tokens, breakstack):
       with ctx.pusharg(tree):
         subtree = KeywordGroupNode.parse(
             ctx, tokens, word, kwargs[word], kwarg_breakstack)
+      if not tokens:
+        # The statement is incomplete, which is reported by the caller
+        break
       cache_tokens = subtree.get_semantic_tokens()
       cache_tokens.pop(0)
       cache_args = [None, None, False]
diff --git a/cmakelang/parse/statement_node.py b/cmakelang/parse/statement_node.py
index f4777c4..7cb6aff 100644
--- a/cmakelang/parse/statement_node.py
+++ b/cmakelang/parse/statement_node.py
@@ -80,6 +80,11 @@ class StatementNode(TreeNode):
       node.children.append(tokens.pop(0))
       continue
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream: l-paren at {} is never closed"
+          .format(lparen.get_location()))
+
     breakstack = [ParenBreaker()]
 
     parse_fun = ctx.parse_db.get(fnname, None)
-- 
2.43.0


From fc92fa895dd0cd9914bbfa8e9e2d1c870af4f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 26/80] fix: apply command line options to every input file

---
 cmakelang/format/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 89086f8..c725f5b 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -507,7 +507,9 @@ def onefile_main(infile_path, args, argparse_dict):
     config_dict = get_config(infile_path, args.config_files)
 
   cfg = configuration.Configuration(**config_dict)
-  cfg.legacy_consume(argparse_dict)
+  # NOTE(josh): options are removed from the dictionary as they are consumed,
+  # but they apply to all of the input files
+  cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
     return
-- 
2.43.0


From 9fd21b17049749079495ada9cd3b8e7992f96d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 27/80] fix: replace the file atomically when formatting in
 place

---
 cmakelang/format/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index c725f5b..021b320 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -564,7 +564,10 @@ def onefile_main(infile_path, args, argparse_dict):
 
   if args.in_place:
     shutil.copymode(infile_path, tempfile_path)
-    shutil.move(tempfile_path, infile_path)
+    # NOTE(josh): don't use shutil.move() which falls back to a copy if the
+    # rename fails, and a copy that is interrupted destroys the file. os.rename()
+    # doesn't replace files on windows, but os.replace() requires python3.
+    getattr(os, "replace", os.rename)(tempfile_path, infile_path)
 
 
 def inner_main():
-- 
2.43.0


From e1c20986b7abfcd953c1e5e68a463c2d2f9cebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 28/80] fix: detect line endings in cmake-lint and gen-parsers

---
 cmakelang/genparsers.py    | 2 +-
 cmakelang/lint/__main__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 410f541..6a68aca 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -188,7 +188,7 @@ def process_file(config, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index a172290..7b81bbb 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -32,7 +32,7 @@ def process_file(config, local_ctx, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   checker = basic_checker.LintChecker(config, local_ctx)
   checker.check_basics(infile_content)
-- 
2.43.0


From 2d902d5e49339e0cb2cafa6fc8ebbfa93ade6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 29/80] fix: allow cmake-lint to read from stdin

---
 cmakelang/lint/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 7b81bbb..30a234b 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -144,12 +144,13 @@ def inner_main():
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
+    infile_desc = infile_path
     if infile_path == '-':
-      infile_path = os.dup(sys.stdin.fileno())
+      infile_desc = os.dup(sys.stdin.fileno())
 
     try:
       infile = io.open(
-          infile_path, mode='r', encoding=cfg.encode.input_encoding, newline='')
+          infile_desc, mode='r', encoding=cfg.encode.input_encoding, newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
-- 
2.43.0


From 390b2aa07396f9c4ba97b89e246a89dbd818c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 30/80] fix: lint of variable references without closing brace

---
 cmakelang/lint/basic_checker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f4dd779..121178c 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -292,6 +292,7 @@ class LintChecker(object):
 
       match = missing_suffix.search(resolved)
       if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
+        catmatch = "".join(match.group(1, 2))
         local_ctx.record_lint(
             "W0106", "closing", catmatch, location=token.get_location())
         continue
-- 
2.43.0


From 8ffa673a7336d55c0ce50c6701220a12e2ba7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 31/80] fix: do not count line endings as part of the line in
 cmake-lint

---
 cmakelang/lint/basic_checker.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 121178c..b7bc174 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -214,20 +214,21 @@ class LintChecker(object):
       # NOTE(josh): The tokenizer starts lineno at "1", so we must do the same
       # here in order to be consistent.
       lineno += 1
-      if len(line) > cfg.format.line_width:
-        local_ctx.record_lint(
-            "C0301", len(line), cfg.format.line_width, location=(lineno,))
-
       if line.endswith("\r"):
         if cfg.format.line_ending == "unix":
           local_ctx.record_lint(
               "C0327", "windows", location=(lineno,))
         line = line[:-1]
-      else:
+      elif lineno < len(lines):
+        # NOTE(josh): whatever follows the last newline has no line ending
         if cfg.format.line_ending == "windows":
           local_ctx.record_lint(
               "C0327", "unix", location=(lineno,))
 
+      if len(line) > cfg.format.line_width:
+        local_ctx.record_lint(
+            "C0301", len(line), cfg.format.line_width, location=(lineno,))
+
       if len(line.rstrip()) != len(line):
         local_ctx.record_lint("C0303", location=(lineno,))
 
-- 
2.43.0


From 6a927b602c2aba04db088a63c64ad20b1f3a5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 32/80] fix: suppress lint up to the end of the scope

---
 cmakelang/lint/basic_checker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index b7bc174..87dbfb6 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -545,8 +545,13 @@ class LintChecker(object):
       prevchild[1] = prevchild[0]
       prevchild[0] = child
 
-    lineno = node.get_tokens()[-1].get_location().line
     if suppressions:
+      # The suppressions are in force up to the line of the statement that
+      # closes the scope, or the end of the file.
+      token = node.get_tokens()[-1]
+      lineno = token.get_location().line + token.spelling.count("\n")
+      if node.parent is None:
+        lineno += 1
       local_ctx.unsuppress(lineno, suppressions)
 
   def check_arggroup(self, node):
-- 
2.43.0


From 903973c91f28988eade826733fe1620c9bbaee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 33/80] fix: suppress lint in scopes nested in one with
 suppressions

---
 cmakelang/lint/lint_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index cca7224..ee87620 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -101,8 +101,10 @@ class FileContext(object):
     # Remove any lint records that were suppressed at the line number where
     # they were recorded
     out = []
-    events = list(self._suppression_events)
-    active_suppressions = set()
+    # The events of a scope are recorded before those of the scopes
+    # nested within it
+    events = sorted(self._suppression_events, key=lambda event: event.lineno)
+    active_suppressions = collections.defaultdict(int)
 
     for record in records:
       if record.location:
@@ -110,13 +112,13 @@ class FileContext(object):
           event = events.pop(0)
           if event.mode == "add":
             for idstr in event.suppressions:
-              active_suppressions.add(idstr)
+              active_suppressions[idstr] += 1
           elif event.mode == "remove":
             for idstr in event.suppressions:
-              active_suppressions.discard(idstr)
+              active_suppressions[idstr] -= 1
           else:
             raise ValueError("Illegal suppression event {}".format(event.mode))
-      if record.spec.idstr in active_suppressions:
+      if active_suppressions[record.spec.idstr] > 0:
         continue
       out.append(record)
 
-- 
2.43.0


From 51e268d91147c5d3e479edbc8cf947764479f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 34/80] fix: lint of incomplete list() commands

---
 cmakelang/lint/basic_checker.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 87dbfb6..8c4c69f 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -104,7 +104,11 @@ def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
      variable name."""
+  if not node.argtree.parg_groups:
+    return None
   semtoks = node.argtree.parg_groups[0].get_tokens(kind="semantic")
+  if len(semtoks) < 2:
+    return None
   listcmd = semtoks[0].spelling
   if listcmd.upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):
     return semtoks[-1]
@@ -715,7 +719,12 @@ class LintChecker(object):
       if stmt.get_funname() == "set":
         token = stmt.argtree.varname
       elif stmt.get_funname() == "list":
-        token = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")[1]
+        if not stmt.argtree.parg_groups:
+          continue
+        tokens = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")
+        if len(tokens) < 2:
+          continue
+        token = tokens[1]
       else:
         continue
       self.check_varname(token.spelling, token, "Assignment to")
-- 
2.43.0


From b5e23c0ee26bd6b82d4bee711c3eabf311c09d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 35/80] fix: lint of conditions of a single word in a loop over
 ARGN

---
 cmakelang/lint/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 8c4c69f..62a4047 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -324,7 +324,7 @@ class LintChecker(object):
         for conditional in find_nodes_in_subtree(
             loop_body, ConditionalGroupNode):
           tokens = conditional.get_semantic_tokens()
-          if not tokens:
+          if len(tokens) < 2:
             continue
           if tokens[0].spelling == loopvar.spelling:
             if tokens[1].spelling in ("STREQUAL", "MATCHES"):
-- 
2.43.0


From af7427b6525c2193d9510ff231a9d81af86e4c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 36/80] fix: indented first statement reported as multiple
 statements on a line

---
 cmakelang/lint/basic_checker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 62a4047..d41a9b7 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -532,7 +532,9 @@ class LintChecker(object):
         elif prevchild[0].node_type is not NodeType.WHITESPACE:
           local_ctx.record_lint("C0321", location=child.get_location())
         elif prevchild[0].count_newlines() < 1:
-          local_ctx.record_lint("C0321", location=child.get_location())
+          # The whitespace at the start of the file does not separate anything
+          if node.parent is not None or prevchild[1] is not None:
+            local_ctx.record_lint("C0321", location=child.get_location())
         elif prevchild[0].count_newlines() < cfg.lint.min_statement_spacing:
           local_ctx.record_lint(
               "C0305", "not enough", location=child.get_location())
-- 
2.43.0


From a59573817b7de7a1beb3a57024bf24e07aa914d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 37/80] fix: bracket comments reported as empty docstrings

---
 cmakelang/lint/basic_checker.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index d41a9b7..6c93aa5 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -5,7 +5,7 @@ import re
 
 from cmakelang.common import InternalError
 from cmakelang.format.formatter import get_comment_lines
-from cmakelang.lex import TokenType, Token
+from cmakelang.lex import TokenType, Token, parse_bracket_argument
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, ConditionalGroupNode, PositionalGroupNode
 )
@@ -100,6 +100,18 @@ def get_prefix_comment(prevchild):
   return prevchild[1]
 
 
+def get_docstring(cfg, node):
+  """
+  Return the text of a comment node
+  """
+  lines = get_comment_lines(cfg, node)
+  for token in node.children:
+    if token.type is TokenType.BRACKET_COMMENT:
+      _, content, _ = parse_bracket_argument(token.spelling[1:])
+      lines.append(content)
+  return "".join(lines)
+
+
 def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
@@ -519,7 +531,7 @@ class LintChecker(object):
           if not prefix_comment:
             local_ctx.record_lint(
                 "C0111", location=child.get_semantic_tokens()[0].get_location())
-          elif not "".join(get_comment_lines(cfg, prefix_comment)).strip():
+          elif not get_docstring(cfg, prefix_comment).strip():
             local_ctx.record_lint(
                 "C0112", location=child.get_semantic_tokens()[0].get_location())
 
-- 
2.43.0


From d864f5a8f554ad94a042897c36560be85a8be644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 38/80] fix: line of messages about the body of a definition

---
 cmakelang/lint/basic_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 6c93aa5..5091202 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -401,7 +401,8 @@ class LintChecker(object):
     # I'm not sure what the best way to organize that flow. In any case
     # we'll report the following errors at the first line following the
     # opening statement, which is where the body starts
-    body_line = defn_node.get_tokens()[-1].get_location().line + 1
+    body_line = (
+        defn_node.get_tokens(kind="syntactic")[-1].get_location().line + 1)
 
     block = defn_node.parent.get_block_with(defn_node)
     return_count = sum(
-- 
2.43.0


From 15d37bd495aa862c621c4e56ca5d0bdc258e50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 39/80] fix: honor lint pragmas in comments in all statements

The comments directly within a set(), foreach(), add_library(), etc are
not CommentNode, and pragmas in them were ignored.
---
 cmakelang/lint/basic_checker.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 5091202..62bcc39 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -10,7 +10,6 @@ from cmakelang.parse.argument_nodes import (
     ArgGroupNode, ConditionalGroupNode, PositionalGroupNode
 )
 from cmakelang.parse.body_nodes import BodyNode, FlowControlNode
-from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.statement_node import StatementNode
 from cmakelang.parse.util import get_min_npargs
@@ -843,7 +842,7 @@ class LintChecker(object):
       self.check_statement(node)
     elif isinstance(node, PositionalGroupNode):
       self.check_positional_group(node)
-    elif isinstance(node, CommentNode):
+    elif node.node_type is NodeType.COMMENT:
       self.check_comment(node)
 
     for child in node.children:
-- 
2.43.0


From 1b13957b65caa9aed5c24367a875c31829b81481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 40/80] fix: no position in the layout for groups without
 arguments

With an empty group of positional arguments at its end, e.g. the sources of
add_library(foo EXCLUDE_FROM_ALL), a statement that does not fit on one line
was given an empty line before the closing parenthesis.
---
 cmakelang/format/formatter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 2790099..5d88b94 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1750,7 +1750,12 @@ def create_box_tree(pnode):
       continue
 
     if pchild.node_type in MATCH_TYPES:
-      layout_root.children.append(create_box_tree(pchild))
+      child = create_box_tree(pchild)
+      if isinstance(child, PargGroupNode) and not child.children:
+        # There is nothing to write for a group without arguments, and giving
+        # it a position anyway may leave an empty line in its place.
+        continue
+      layout_root.children.append(child)
   return layout_root
 
 
-- 
2.43.0


From 4baae345984b310eabc4af439a00c4d59720da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 41/80] fix: empty line within empty parentheses that do not
 fit

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 5d88b94..8dbfb42 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1536,7 +1536,8 @@ class ParenGroupNode(LayoutNode):
         child.statement_terminal = True
 
       cursor = child.reflow(stack_context, cursor, passno)
-      if prev is not None and not self._wrap:
+      is_empty = isinstance(child, ArgGroupNode) and not child.children
+      if prev is not None and not self._wrap and not is_empty:
         # If we are in horizontal wrapping mode, then we need to check if the
         # child has overflowed the available columnt width. If so, then we need
         # to wrap to the next line and try again
-- 
2.43.0


From c72533694455f7869fe51aa3c04aa7afb68d587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 42/80] fix: options at the root of a configuration merge with
 those in sections

An option at the root of any configuration file used to win over the same
option within its section of a later configuration file.
---
 cmakelang/configuration.py   |  9 +++++++++
 cmakelang/format/__main__.py | 16 +++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/cmakelang/configuration.py b/cmakelang/configuration.py
index 7ecebc5..84c79dc 100644
--- a/cmakelang/configuration.py
+++ b/cmakelang/configuration.py
@@ -486,3 +486,12 @@ class Configuration(ConfigObject):
       return command_dict[fieldname]
 
     return default_value
+
+
+def get_section_fields():
+  """
+  Return a list of (section, field names) for each section of the configuration
+  """
+  # pylint: disable=protected-access
+  return [(descr.name, descr.subtree_class.get_field_names())
+          for descr in Configuration._field_registry]
diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 021b320..8600429 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -315,7 +315,21 @@ def get_configdict(configfile_paths):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
       include_queue.append(include_path)
-    map_merge(config_dict, increment_dict)
+    map_merge(config_dict, sectionize(increment_dict))
+  return config_dict
+
+
+def sectionize(config_dict):
+  """
+  Move options specified at the root of the dictionary (legacy style) into the
+  section that they belong to, so that they merge with the same option in other
+  configuration files, regardless of the style used.
+  """
+  for section, names in configuration.get_section_fields():
+    for name in names:
+      if name in config_dict:
+        value = config_dict.pop(name)
+        config_dict.setdefault(section, {})[name] = value
   return config_dict
 
 
-- 
2.43.0


From 0ad7e70705974d377fb4319bf171803d6f6db0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 43/80] fix: additional_commands replaces the default value

The commands in the default value of additional_commands, or in a value that
has been replaced, were known to the parser regardless.
---
 cmakelang/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/configuration.py b/cmakelang/configuration.py
index 84c79dc..b4dc84f 100644
--- a/cmakelang/configuration.py
+++ b/cmakelang/configuration.py
@@ -398,6 +398,9 @@ class ParseConfig(ConfigObject):
     super(ParseConfig, self).__init__(**kwargs)
 
   def _update_derived(self):
+    # Start over, so that nothing remains of a previous value of
+    # `additional_commands` (e.g. the default one)
+    self.fn_spec = parse_util.CommandSpec("<root>")
     if self.additional_commands is not None:
       for command_name, spec in self.additional_commands.items():
         self.fn_spec.add(command_name, **spec)
-- 
2.43.0


From 1d13b371aab63734b500bce254fdcb2b5acd18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 44/80] fix: dump of per-command configuration of builtin
 commands

--dump-config left out any per_command options for commands that have a
canonical spelling in the database.
---
 cmakelang/format/__main__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 8600429..5f5558b 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -39,7 +39,6 @@ from cmakelang import parse
 from cmakelang.parse.argument_nodes import StandardParser2
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.printer import dump_tree as dump_parse
-from cmakelang.parse.funs import standard_funs
 
 
 logger = logging.getLogger(__name__)
@@ -394,10 +393,6 @@ def dump_config(args, config_dict, outfile):
   outfmt = args.dump_config
   config_dict.update(get_argdict(args))
   cfg = configuration.Configuration(**config_dict)
-  # Don't dump default per-command configs
-  for key in standard_funs.get_default_config():
-    cfg.misc.per_command.pop(key, None)
-
   if outfmt == 'yaml':
     import yaml
     yaml_register_odict(yaml.SafeDumper)
-- 
2.43.0


From 0f8cdbe839a635c7fc7c3446be894fde4f42db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 45/80] fix: python configuration in a file without extension

Most python configurations are valid YAML as well and were read as such:
as a string, or as one option called 'with section("format")'.
---
 cmakelang/format/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 5f5558b..33e66be 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -25,6 +25,7 @@ import io
 import json
 import logging
 import os
+import re
 import shutil
 import sys
 
@@ -242,7 +243,11 @@ def try_get_configdict(configfile_path):
 
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return load_yaml(config_file)
+      config_dict = load_yaml(config_file)
+    # NOTE: most python configs are valid YAML too, but they are either just
+    # a string or a mapping with keys such as 'with section("format")'.
+    if all(re.match(r"^[\w-]+$", key) for key in config_dict.keys()):
+      return config_dict
   except:  # pylint: disable=bare-except
     pass
 
-- 
2.43.0


From a890634c9b366cddf55394d428769e172c78f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 46/80] fix: escape the text of the listfile in annotated HTML

---
 cmakelang/render.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmakelang/render.py b/cmakelang/render.py
index a7f77fe..9ba90fb 100644
--- a/cmakelang/render.py
+++ b/cmakelang/render.py
@@ -14,6 +14,16 @@ from cmakelang import lex
 from cmakelang.parse.common import TreeNode
 
 
+def escape_html(text):
+  """
+  Return the text with all of the markup-significant characters escaped
+  """
+  for char, entity in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"),
+                       ('"', "&quot;")):
+    text = text.replace(char, entity)
+  return text
+
+
 def dump_html(node, outfile):
   """
   Write to `outfile` an html annoted version of the listfile which has been
@@ -27,7 +37,7 @@ def dump_html(node, outfile):
     outfile.write('</span>')
   elif isinstance(node, lex.Token):
     outfile.write('<span class="cmf-{}">'.format(node.type.name))
-    outfile.write(node.spelling)
+    outfile.write(escape_html(node.spelling))
     outfile.write('</span>')
 
 
-- 
2.43.0


From 224a5fff44d9c3ac9b852f4455d8f56526b20311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 47/80] fix: the --config-file option of cmake-annotate

The path was taken for a list of paths of one character each.
---
 cmakelang/annotate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c8f387f..877b025 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -102,8 +102,8 @@ def setup_argparser(arg_parser):
   arg_parser.add_argument('-o', '--outfile-path', default=None,
                           help='Where to write the formatted file. '
                                'Default is stdout.')
-  arg_parser.add_argument('-c', '--config-file',
-                          help='path to configuration file')
+  arg_parser.add_argument('-c', '--config-files', nargs='+',
+                          help='path to configuration file(s)')
   arg_parser.add_argument('infilepaths', nargs='*')
 
 
@@ -141,9 +141,9 @@ def main():
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_file)
+      config_dict = __main__.get_config(os.getcwd(), args.config_files)
     else:
-      config_dict = __main__.get_config(infile_path, args.config_file)
+      config_dict = __main__.get_config(infile_path, args.config_files)
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From 00c1e6b61a2841571982879caff62bd7e89d6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 48/80] fix: parse with the configuration in cmake-annotate

---
 cmakelang/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 877b025..9991d79 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -53,7 +53,7 @@ def annotate_file(config, infile, outfile, outfmt=None):
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
   parse_db.update(parse.funs.get_funtree(config.parse.fn_spec))
-  ctx = parse.ParseContext(parse_db)
+  ctx = parse.ParseContext(parse_db, config=config)
   parse_tree = parse.parse(tokens, ctx)
 
   if outfmt == "page":
-- 
2.43.0


From 290eae59d9ac17967a4f88ba7533b0ea807a0f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 49/80] fix: do not translate line endings in cmake-annotate

---
 cmakelang/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 9991d79..083f42a 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -167,7 +167,8 @@ def main():
           os.dup(sys.stdin.fileno()),
           mode='r', encoding=cfg.encode.input_encoding, newline='')
     else:
-      infile = io.open(infile_path, 'r', encoding=cfg.encode.input_encoding)
+      infile = io.open(
+          infile_path, 'r', encoding=cfg.encode.input_encoding, newline='')
 
     try:
       with infile:
-- 
2.43.0


From 103105f6a0ead4021ebc88c51f4492535ca75d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 50/80] fix: keep the nargs of a positional specification given
 as dictionary

---
 cmakelang/parse/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 50a9817..60bce5a 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -453,7 +453,7 @@ def parse_pspec(pargs, flags):
 
     if isinstance(pargdecl, dict):
         # A dictionary is interpreted as init kwargs
-      if "npargs" not in pargdecl:
+      if "nargs" not in pargdecl:
         pargdecl = dict(pargdecl)
         pargdecl["nargs"] = ZERO_OR_MORE
       out.append(PositionalSpec(**pargdecl))
-- 
2.43.0


From d53f39a1af4e3bd6565f3f2c75641c737e7516f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 51/80] fix: pass over positional groups which accept no
 argument

---
 cmakelang/parse/argument_nodes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 6b036bd..92b669f 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -158,7 +158,8 @@ class StandardArgTree(ArgGroupNode):
         else:
           pspec = default_spec
 
-        if not npargs_is_exact(pspec.nargs) or pspec.nargs == 0:
+        if (not npargs_is_exact(pspec.nargs) or pspec.nargs == 0
+            or tokens[0].type == lex.TokenType.RIGHT_PAREN):
           break
 
       ntokens = len(tokens)
@@ -186,7 +187,11 @@ class StandardArgTree(ArgGroupNode):
         with ctx.pusharg(tree):
           subtree = PositionalGroupNode.parse2(
               ctx, tokens, pspec, positional_breakstack)
-          tree.parg_groups.append(subtree)
+
+        if len(tokens) >= ntokens and pspec is not default_spec:
+          # This group doesn't accept the next argument, so try the next group
+          continue
+        tree.parg_groups.append(subtree)
 
       if len(tokens) >= ntokens:
         raise InternalError(
-- 
2.43.0


From a30690c140389c98218e4bc31bf2d073f828faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 52/80] fix: recognise keywords and flags of specifications in
 lower case

---
 cmakelang/parse/argument_nodes.py |  6 +++++-
 cmakelang/parse/util.py           | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 92b669f..e3a23c3 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -12,6 +12,7 @@ from cmakelang.parse.util import (
     comment_belongs_up_tree,
     get_normalized_kwarg,
     get_tag,
+    normalize_keyword,
     npargs_is_exact,
     pargs_are_full,
     IMPLICIT_PARG_TYPES,
@@ -257,7 +258,10 @@ class StandardParser2(object):
       funtree = {}
 
     self.cmdspec = cmdspec
-    self.funtree = funtree
+    self.funtree = {
+        normalize_keyword(word): subparser
+        for word, subparser in funtree.items()
+    }
     self.doc = doc
 
   @property
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 60bce5a..d1d2c79 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -44,6 +44,16 @@ ALL_COMMENT_TOKENS = (
 NON_SEMANTIC_TOKENS = ALL_COMMENT_TOKENS + WHITESPACE_TOKENS
 
 
+def normalize_keyword(word):
+  """
+  Return the keyword (or flag) of a specification in the form that arguments
+  are compared in, see get_normalized_kwarg()
+  """
+  if word.startswith("-"):
+    return word.lower()
+  return word.upper()
+
+
 class PositionalSpec(tuple):
   """
   Encapsulates the parse specification for a positional argument group.
@@ -64,6 +74,7 @@ class PositionalSpec(tuple):
       tags = []
     if not flags:
       flags = []
+    flags = [normalize_keyword(flag) for flag in flags]
     return tuple.__new__(
         cls, (nargs, sortable, tags, flags, legacy, max_pargs_hwrap,
               always_wrap))
-- 
2.43.0


From 4dc8ef2ff1f83a69261827afb28faa78a0470030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 53/80] fix: numeric strings as number of arguments

---
 cmakelang/parse/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index d1d2c79..52cdcda 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -228,6 +228,10 @@ def pargs_are_full(npargs, nconsumed):
       _ = int(npargs[:-1])
     except ValueError:
       raise ValueError("Unexepected npargs {}".format(npargs))
+    return False
+
+  if npargs.isdigit():
+    return nconsumed >= int(npargs)
   return False
 
 
-- 
2.43.0


From 99a9c5f93d1c51354dbc3a767dc6fd444378b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 54/80] fix: a positional specification as specification of a
 keyword

---
 cmakelang/parse/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 52cdcda..3577e97 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -529,6 +529,9 @@ class CommandSpec(object):
           self.kwargs[keyword] = CommandSpec(name=keyword, pargs=spec)
         elif isinstance(spec, CommandSpec):
           self.kwargs[keyword] = spec
+        elif isinstance(spec, dict) and "nargs" in spec:
+          # A specification of the only positional group
+          self.kwargs[keyword] = CommandSpec(name=keyword, pargs=spec)
         elif isinstance(spec, dict):
           self.kwargs[keyword] = CommandSpec(name=keyword, **spec)
         else:
-- 
2.43.0


From be74a635fa4f495d607034671e682bc6a096e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 55/80] fix: accept set() and foreach() without arguments

---
 cmakelang/lint/basic_checker.py | 6 ++++++
 cmakelang/parse/funs/foreach.py | 8 ++++----
 cmakelang/parse/funs/set.py     | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 62bcc39..eb6e4ef 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -442,6 +442,8 @@ class LintChecker(object):
     tokens.pop(0)  # statement name "foreach"
     tokens.pop(0)  # lparen
     token = tokens.pop(0)  # loopvaraible
+    if token.type is TokenType.RIGHT_PAREN:
+      return
     if not re.match(cfg.lint.argument_var_pattern, token.spelling):
       local_ctx.record_lint(
           "C0103", "argument", token.spelling, cfg.lint.argument_var_pattern,
@@ -633,6 +635,8 @@ class LintChecker(object):
 
     if node.get_funname() == "set":
       varname = node.argtree.varname
+      if varname is None:
+        return
     elif node.get_funname() == "list":
       varname = get_list_outvar(node)
       if varname is None:
@@ -732,6 +736,8 @@ class LintChecker(object):
     for stmt in find_statements_in_subtree(tree, ["set", "list"]):
       if stmt.get_funname() == "set":
         token = stmt.argtree.varname
+        if token is None:
+          continue
       elif stmt.get_funname() == "list":
         if not stmt.argtree.parg_groups:
           continue
diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 17bf40f..cf9b33d 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -40,14 +40,14 @@ def parse_foreach_standard(ctx, tokens, breakstack):
   # Consume the loop variable and any attached comments
   ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(ctx, tokens, 1, [], breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
 
   # Consume the items of iteration
   ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(ctx, tokens, '+', [], breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
 
   return tree
 
diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index 539d556..716e6f6 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -50,8 +50,8 @@ def parse_set(ctx, tokens, breakstack):
   ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(
       ctx, tokens, 1, flags, positional_breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
   for token in subtree.get_semantic_tokens():
     tree.varname = token
     break
-- 
2.43.0


From daf596ebd1e67a42fe94a2c86c0c35ce32329d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 56/80] fix: honour a sort annotation before a declared
 positional group

---
 cmakelang/parse/argument_nodes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index e3a23c3..d3a8b1c 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -119,6 +119,10 @@ class StandardArgTree(ArgGroupNode):
     kwarg_breakstack = breakstack + [
         KwargBreaker(list(kwargs.keys()) + all_flags)]
 
+    # The sortability annotation, if there is one, of the positional group that
+    # comes next
+    sortable = None
+
     while tokens:
       # If it is a whitespace token then put it directly in the parse tree at
       # the current depth
@@ -131,6 +135,10 @@ class StandardArgTree(ArgGroupNode):
                             lex.TokenType.BRACKET_COMMENT):
         if comment_belongs_up_tree(ctx, tokens, tree, breakstack):
           break
+        if get_tag(tokens[0]) in ("sortable", "sort"):
+          sortable = True
+        elif get_tag(tokens[0]) in ("unsortable", "unsort"):
+          sortable = False
         tree.children.append(CommentNode.consume(ctx, tokens))
         continue
 
@@ -169,6 +177,7 @@ class StandardArgTree(ArgGroupNode):
         with ctx.pusharg(tree):
           subtree = KeywordGroupNode.parse(
               ctx, tokens, word, kwargs[word], kwarg_breakstack)
+        sortable = None
         tree.kwarg_groups.append(subtree)
       else:
         if pargspecs:
@@ -192,6 +201,9 @@ class StandardArgTree(ArgGroupNode):
         if len(tokens) >= ntokens and pspec is not default_spec:
           # This group doesn't accept the next argument, so try the next group
           continue
+        if sortable is not None:
+          subtree.sortable = sortable
+          sortable = None
         tree.parg_groups.append(subtree)
 
       if len(tokens) >= ntokens:
-- 
2.43.0


From 17f3b96d1923e108bb94cbe51c29d3eb3f8f5fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 57/80] fix: honour a sort annotation after EXCLUDE_FROM_ALL in
 add_library

---
 cmakelang/parse/funs/add_library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index b8bfabd..c2d2447 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -75,6 +75,9 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
+        if src_group is not None and not src_group.get_semantic_tokens():
+          # The source group was opened by the flag before this annotation
+          src_group.sortable = sortable
       child = TreeNode(NodeType.COMMENT)
       active_depth.children.append(child)
       child.children.append(tokens.pop(0))
-- 
2.43.0


From a36438b474a7f209e3d017d2fb11af2463846b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 58/80] fix: make ctest-to parse test files again

---
 cmakelang/ctest_to.py | 123 +++++++++++++++++++-----------------------
 1 file changed, 55 insertions(+), 68 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 9d93661..181ea8b 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -11,12 +11,14 @@ import io
 import json
 import logging
 import os
+import re
 import sys
 from xml.etree import ElementTree as ET
 
 from cmakelang.format import __main__
 from cmakelang import lex
 from cmakelang import parse
+from cmakelang.parse.argument_nodes import StandardArgTree
 
 
 logger = logging.getLogger(__name__)
@@ -42,7 +44,7 @@ class TestSpec(object):
       if key == "LABELS":
         value = value.split(";")
       if key == "TIMEOUT":
-        value = int(value)
+        value = float(value) if "." in value else int(value)
       if key.startswith("_"):
         continue
       props[key.lower()] = value
@@ -88,6 +90,33 @@ class TestSpec(object):
     return elem
 
 
+ESCAPES = {"t": "\t", "n": "\n", "r": "\r", ";": "\\;"}
+
+
+def get_value(token):
+  """Return the value of an argument: its spelling without the quotes or
+     brackets, and without escapes.
+  """
+  spelling = token.spelling
+  if token.type is lex.TokenType.BRACKET_ARGUMENT:
+    width = spelling.index("[", 1) + 1
+    content = spelling[width:-width]
+    return content[1:] if content.startswith("\n") else content
+  if token.type is lex.TokenType.QUOTED_LITERAL:
+    spelling = spelling[1:-1].replace("\\\n", "")
+  return re.sub(
+      r"\\(.)", lambda match: ESCAPES.get(match.group(1), match.group(1)),
+      spelling, flags=re.DOTALL)
+
+
+def parse_arguments(ctx, tokens, breakstack):
+  """Parse the arguments of a statement. Return the parse tree of the arguments
+     and the list of their values.
+  """
+  tree = StandardArgTree.parse(ctx, tokens, "*", {}, [], breakstack)
+  return tree, [get_value(token) for token in tree.get_semantic_tokens()]
+
+
 class ParseContext(object):
   """Persistent context for testfile parsing. Stores a queue of directories
      to process, and callbacks for each of the different cmake statements.
@@ -98,90 +127,48 @@ class ParseContext(object):
     self.dirqueue = []
     self.tests = {}
 
-  # pylint: disable=W0613
-  def parse_add_test(self, tokens, _breakstack):
+  def parse_add_test(self, ctx, tokens, breakstack):
     """Parse an add_test() statement. This statement contains the test name
        and the command for the test.
     """
-    if not tokens:
+    tree, values = parse_arguments(ctx, tokens, breakstack)
+    if not values:
       raise RuntimeError("Ran out of tokens while processing add_test")
-    if tokens[0].type not in (
-        lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL):
-      raise RuntimeError("Expected a WORD token but got {}".format(tokens[0]))
-    test_name = tokens[0].spelling
-    tokens.pop(0)
-    test_argv = []
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        continue
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
-      test_argv.append(spelling)
-
+    test_name = values.pop(0)
     logger.debug("Adding test %s", test_name)
-    self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
+    self.tests[(test_name, self.cwd)] = TestSpec(test_name, values, self.cwd)
+    return tree
 
-  def parse_set_tests_properties(self, tokens, _breakstack):
+  def parse_set_tests_properties(self, ctx, tokens, breakstack):
     """Parse a set_tests_properties() statement. This statement can set
        properties (key/value strings) on one or more tests.
     """
-    test_names = []
-    properties = {}
-
-    while (tokens
-           and tokens[0].spelling != "PROPERTIES"
-           and tokens[0].type != lex.TokenType.RIGHT_PAREN):
-      token = tokens.pop(0)
-      if token.type == lex.TokenType.WHITESPACE:
-        continue
-      assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      test_names.append(token.spelling)
-
-    token = tokens.pop(0)
-    assert token.spelling == "PROPERTIES"
-
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        token = tokens.pop(0)
-      assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      key = token.spelling
-
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        token = tokens.pop(0)
-
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        value = token.spelling[1:-1]
-      else:
-        value = token.spelling
-
-      properties[key] = value
+    tree, values = parse_arguments(ctx, tokens, breakstack)
+    if "PROPERTIES" not in values:
+      raise RuntimeError("Expected PROPERTIES in set_tests_properties")
+    split = values.index("PROPERTIES")
+    test_names = values[:split]
+    values = values[split + 1:]
+    properties = dict(zip(values[0::2], values[1::2]))
 
     for test_name in test_names:
+      if (test_name, self.cwd) not in self.tests:
+        logger.warning("Can not find test %s to add properties to", test_name)
+        continue
       logger.debug("Updating properties for %s", test_name)
-      self.tests[test_name].props.update(properties)
+      self.tests[(test_name, self.cwd)].props.update(properties)
+    return tree
 
-  def parse_subdirs(self, tokens, _breakstack):
+  def parse_subdirs(self, ctx, tokens, breakstack):
     """Parse a subdirs() statement. This statement is actually deprecated in
        cmake but it appears it is still in use by ctest.
     """
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
-      fullpath = os.path.join(self.cwd, spelling)
+    tree, values = parse_arguments(ctx, tokens, breakstack)
+    for value in values:
+      fullpath = os.path.join(self.cwd, value)
       logger.debug("pushing directory %s", fullpath)
       self.dirqueue.append(fullpath)
+    return tree
 
   def get_db(self):
     """Return the parse database: dictionary of statement names to parse
@@ -203,7 +190,7 @@ class ParseContext(object):
     with io.open(filepath, "r", encoding="utf-8") as infile:
       infile_content = infile.read()
     tokens = lex.tokenize(infile_content)
-    _ = parse.parse(tokens, self.get_db())
+    _ = parse.parse(tokens, parse.ParseContext(self.get_db()))
 
   def start(self, firstdir):
     """Main entry-point into the parse. Pushes the first directory onto the
-- 
2.43.0


From 3240f2c7d958401b95fcae33f49570b94e08f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 59/80] fix: gen-parsers mixes file names into its output,
 continues after a failed read

---
 cmakelang/genparsers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 6a68aca..44d2dae 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -246,7 +246,7 @@ def main():
   returncode = 0
   outdict = collections.OrderedDict()
   for infile_path in args.infilepaths:
-    print(infile_path)
+    logger.debug("Processing %s", infile_path)
     cfg = configuration.Configuration()
     if infile_path == '-':
       infile_path = os.dup(sys.stdin.fileno())
@@ -257,6 +257,7 @@ def main():
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
+      continue
 
     try:
       with infile:
@@ -264,6 +265,8 @@ def main():
     except UnicodeDecodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
+      returncode = 1
+      continue
 
     try:
       parse_tree = process_file(cfg, intext)
-- 
2.43.0


From 44fa80de267c9d951fe13a0604bbfdf15e83b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 60/80] fix: gen-parsers reads statements out of order and
 attributes those of nested definitions to the outer one

---
 cmakelang/genparsers.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 44d2dae..3051795 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -31,10 +31,10 @@ logger = logging.getLogger(__name__)
 def find_statements_in_subtree(subtree, funnames):
   """
   Return a generator that yields all statements in the `subtree` which match
-  the provided set of `funnames`.
+  the provided set of `funnames`, in order of appearance.
   """
   if isinstance(subtree, (list, tuple)):
-    queue = subtree
+    queue = list(subtree)
   else:
     queue = [subtree]
 
@@ -50,9 +50,8 @@ def find_statements_in_subtree(subtree, funnames):
         yield node
         continue
 
-    for child in node.children:
-      if isinstance(child, TreeNode):
-        queue.append(child)
+    queue[:0] = [
+        child for child in node.children if isinstance(child, TreeNode)]
 
 
 class VarSub(object):
@@ -92,10 +91,24 @@ def process_set_statement(argtree, variables):
 def process_defn_body(body, out):
   assert isinstance(body, BodyNode)
   variables = {}
+  # depth of the definitions that are nested in this one
+  depth = 0
   for child in find_statements_in_subtree(
-      body, ["list", "cmake_parse_arguments", "set"]):
+      body, ["list", "cmake_parse_arguments", "set", "function", "macro",
+             "endfunction", "endmacro"]):
 
     if isinstance(child, StatementNode):
+      if child.get_funname() in ("function", "macro"):
+        depth += 1
+        continue
+
+      if child.get_funname() in ("endfunction", "endmacro"):
+        depth -= 1
+        continue
+
+      if depth:
+        continue
+
       if child.get_funname() == "set":
         process_set_statement(child.argtree, variables)
         continue
-- 
2.43.0


From 9cc58c8b89c650a6cb0c43c15ed6e98771d3ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 61/80] fix: gen-parsers misreads
 cmake_parse_arguments(PARSE_ARGV ...) and set(... PARENT_SCOPE)

---
 cmakelang/genparsers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 3051795..0d5aad3 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -79,6 +79,8 @@ def process_set_statement(argtree, variables):
   Process a set() statement, updating the variable assignments accordingly
   """
   varname = replace_varrefs(argtree.varname.spelling, variables)
+  if argtree.parent_scope:
+    return
   if not argtree.value_group:
     variables.pop(varname, None)
     return
@@ -119,6 +121,12 @@ def process_defn_body(body, out):
 
       if child.get_funname() == "cmake_parse_arguments":
         pargs = child.argtree.get_tokens(kind="semantic")
+        if pargs and pargs[0].spelling == "PARSE_ARGV":
+          pargs = pargs[2:]
+        if len(pargs) < 4:
+          logger.warning("Can not process cmake_parse_arguments at %s",
+                         child.get_location())
+          return
         pargs.pop(0)
         kwvargs = replace_varrefs(
             pargs.pop(0).spelling.strip('"'), variables).split(";")
-- 
2.43.0


From 615ecd8533db0784bc46b687c094b127f53f639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 62/80] fix: wrapping a comment asserted if it did not converge
 in eight rounds

---
 cmakelang/common.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cmakelang/common.py b/cmakelang/common.py
index 610b545..a9df15c 100644
--- a/cmakelang/common.py
+++ b/cmakelang/common.py
@@ -75,25 +75,19 @@ def stable_wrap(wrapper, paragraph_text):
   converges
   """
 
-  history = [paragraph_text]
   prev_text = paragraph_text
   wrap_text = paragraph_text
-  for _ in range(8):
+  while True:
     lines = wrapper.wrap(wrap_text)
     next_text = '\n'.join(line for line in lines)
     if next_text == prev_text:
       return lines
     prev_text = next_text
-    history.append(next_text)
 
     lines[0] = lines[0][len(wrapper.initial_indent):]
     lines[1:] = [line[len(wrapper.subsequent_indent):] for line in lines[1:]]
     wrap_text = '\n'.join(lines)
 
-  assert False, ("textwrap failed to converge on:\n\n {}"
-                 .format('\n\n'.join(history)))
-  return []
-
 
 class UserError(Exception):
   """Raised when we encounter a fatal problem with usage: e.g. parse error,
-- 
2.43.0


From 6366a74710e4606f7e065860bca3a449ac5ea9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 63/80] fix: literal comments lost their leading hashes; a byte
 order mark hid the first comment

---
 cmakelang/format/formatter.py | 8 ++++++--
 cmakelang/lex/__init__.py     | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 8dbfb42..53ccc2d 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -87,15 +87,19 @@ def format_comment_lines(node, stack_context, line_width):
   if not config.markup.enable_markup:
     return [prefix + line.rstrip() for line in inlines]
 
+  literal_lines = [
+      token.spelling.strip() for token in node.children
+      if token.type == TokenType.COMMENT]
+
   if config.markup.literal_comment_pattern is not None:
     literal_comment_regex = re.compile(config.markup.literal_comment_pattern)
     if literal_comment_regex.match('\n'.join(inlines)):
-      return [prefix + line.rstrip() for line in inlines]
+      return literal_lines
 
   if node.children[0] is stack_context.first_token and (
       config.markup.first_comment_is_literal
       or stack_context.first_token.spelling.startswith("#!")):
-    return [prefix + line.rstrip() for line in inlines]
+    return literal_lines
 
   items = markup.parse(inlines, config)
   markup_lines = markup.format_items(config, max(10, line_width - 2), items)
diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 6ed9e74..95b5431 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -254,6 +254,7 @@ def get_first_non_whitespace_token(tokens):
   Return the first token in the list that is not whitespace, or None
   """
   for token in tokens:
-    if token.type not in (TokenType.WHITESPACE, TokenType.NEWLINE):
+    if token.type not in (TokenType.WHITESPACE, TokenType.NEWLINE,
+                          TokenType.BYTEORDER_MARK):
       return token
   return None
-- 
2.43.0


From 404980ed7e1aae963f0e634a621305f920110452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 64/80] fix: explicit trailing comments were filled one column
 too wide

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 53ccc2d..a27af84 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -102,7 +102,8 @@ def format_comment_lines(node, stack_context, line_width):
     return literal_lines
 
   items = markup.parse(inlines, config)
-  markup_lines = markup.format_items(config, max(10, line_width - 2), items)
+  markup_lines = markup.format_items(
+      config, max(10, line_width - len(prefix) - 1), items)
   return [prefix + (" " * len(line[:1])) + line for line in markup_lines]
 
 
-- 
2.43.0


From 5e2544be0faad8b98abdb4cbe22a8e65072ee8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 65/80] fix: a fence was replaced with ~~~ even if the fence
 pattern does not match that

---
 cmakelang/markup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 1432ff1..a0a4da2 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -206,7 +206,9 @@ def format_item(config, line_width, item):
   if item.kind == CommentType.SEPARATOR:
     return ['']
   if item.kind == CommentType.FENCE:
-    return ['~~~']
+    if re.match(config.markup.fence_pattern, '~~~'):
+      return ['~~~']
+    return item.lines
   if item.kind == CommentType.VERBATIM:
     return [line.rstrip() for line in item.lines]
   if is_hashruler(item) and config.markup.canonicalize_hashrulers:
-- 
2.43.0


From 01aec5c8e079af5e984f9baf4057300dd322cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 66/80] fix: the default ruler pattern was used within
 paragraphs, whatever the configured one

---
 cmakelang/markup.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index a0a4da2..d4ac632 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -157,9 +157,6 @@ def parse(lines, config=None):
       if NOTE_REGEX.match(line):
         obj_list.append(CommentItem(CommentType.NOTE))
         state = CommentType.NOTE
-      elif RULER_REGEX.match(line):
-        obj_list.append(CommentItem(CommentType.RULER))
-        state = CommentType.RULER
       obj_list[-1].lines.append(line.strip())
 
     elif state in (CommentType.BULLET_LIST, CommentType.ENUM_LIST):
-- 
2.43.0


From 591e703ab4199e9c1a7c87f42ed13a7e33faf832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 67/80] fix: deeply nested lists failed an assertion

---
 cmakelang/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index d4ac632..b8c54d1 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -257,7 +257,7 @@ def format_items(config, line_width, items):
         indent_history.pop(-1)
       indent_history.append(item.indent)
       nindent = 2 * (len(indent_history) - 1)
-      ilines = format_item(config, line_width - nindent, item)
+      ilines = format_item(config, max(3, line_width - nindent), item)
       outlines.extend(' ' * nindent + iline for iline in ilines)
     else:
       outlines.extend(format_item(config, line_width, item))
-- 
2.43.0


From ecf2ac5eb5d7be58b5a0908a3abea56f549a1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 68/80] fix: items of enumerations lost words, or were merged
 when the number of digits changed

---
 cmakelang/markup.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index b8c54d1..8a887a4 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -3,7 +3,6 @@
 Functions for parsing comments in markup
 """
 from __future__ import unicode_literals
-import math
 import textwrap
 import re
 from cmakelang import common
@@ -21,7 +20,7 @@ RULER_REGEX = re.compile(RULER_PATTERN)
 BULLET_REGEX = re.compile(r'^(\s*)([\*-])( .+)$')
 
 # Matches lines that start an itemized list
-ENUM_REGEX = re.compile(r'^(\s*)\d+([.:])( .+)$')
+ENUM_REGEX = re.compile(r'^(\s*)(\d+)([.:])( .+)$')
 
 # Matches a verbatim fence
 FENCE_PATTERN = r'^\s*([`~]{3}[`~]*)(.*)$'
@@ -62,6 +61,7 @@ def parse(lines, config=None):
   obj_list = []
   state = None
   bullet_regex = None
+  prev_enum = None
 
   if config is None:
     fence_re = FENCE_REGEX
@@ -125,16 +125,10 @@ def parse(lines, config=None):
       match = ENUM_REGEX.match(line)
       if match:
         obj_list.append(CommentItem(CommentType.ENUM_LIST))
-        indent_str = match.group(1)
-        bullet_punctuation = match.group(2)
-        obj_list[-1].lines.append(match.group(3).strip())
-        obj_list[-1].indent = len(indent_str)
+        obj_list[-1].lines.append(match.group(4).strip())
+        obj_list[-1].indent = len(match.group(1))
         state = CommentType.ENUM_LIST
-
-        # TODO(josh) We want to match lines with either the same number of
-        # spaces or with the colon in the same column
-        bullet_regex = re.compile(
-            r'^{}\d+{}( .*)$'.format(indent_str, bullet_punctuation))
+        prev_enum = match
         continue
 
       if NOTE_REGEX.match(line):
@@ -159,7 +153,20 @@ def parse(lines, config=None):
         state = CommentType.NOTE
       obj_list[-1].lines.append(line.strip())
 
-    elif state in (CommentType.BULLET_LIST, CommentType.ENUM_LIST):
+    elif state == CommentType.ENUM_LIST:
+      # A new item has either the first digit or the punctuation in the same
+      # column as the previous one
+      match = ENUM_REGEX.match(line)
+      if (match and match.group(3) == prev_enum.group(3) and
+          (match.end(1) == prev_enum.end(1) or
+           match.end(2) == prev_enum.end(2))):
+        obj_list[-1].lines.append(match.group(4).strip())
+        obj_list[-1].indent = min(obj_list[-1].indent, match.end(1))
+        prev_enum = match
+      else:
+        obj_list[-1].lines[-1] += '\n' + line.strip()
+
+    elif state == CommentType.BULLET_LIST:
       match = bullet_regex.match(line)
       if match:
         obj_list[-1].lines.append(match.group(1).strip())
@@ -230,7 +237,7 @@ def format_item(config, line_width, item):
     outlines = []
     wrapper = textwrap.TextWrapper(width=line_width - 2, **COMMON_KWARGS)
 
-    digits = int(math.ceil(math.log(len(item.lines), 10)))
+    digits = len(str(len(item.lines)))
     fmt = '{:%dd}%s ' % (digits, config.markup.enum_char)
     indent = ' ' * (digits + 2)
 
-- 
2.43.0


From 542ab2235749015d89134f068d16b73ade72d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 69/80] fix: always_wrap was ignored within blocks

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index a27af84..bf46b90 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -189,7 +189,7 @@ def get_pathstr(node_path):
 
   pathcopy = []
   for node in node_path:
-    if isinstance(node, BodyNode):
+    if isinstance(node, (BodyNode, FlowControlNode)):
       continue
     if isinstance(node, ArgGroupNode):
       continue
-- 
2.43.0


From 25cdec3c625b4c304641c17d395dbfaa193bd1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 70/80] fix: recognize lists that are written with the
 configured bullet and enum characters

---
 cmakelang/markup.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 8a887a4..5c80f31 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -62,6 +62,8 @@ def parse(lines, config=None):
   state = None
   bullet_regex = None
   prev_enum = None
+  first_bullet_re = BULLET_REGEX
+  enum_re = ENUM_REGEX
 
   if config is None:
     fence_re = FENCE_REGEX
@@ -69,6 +71,16 @@ def parse(lines, config=None):
   else:
     fence_re = re.compile(config.markup.fence_pattern)
     ruler_re = re.compile(config.markup.ruler_pattern)
+    # The characters that lists are written with must be recognized as well
+    # or else a formatted list is not a list anymore
+    bullet_char = getattr(config.markup, "bullet_char", None)
+    if bullet_char:
+      first_bullet_re = re.compile(
+          r'^(\s*)([*-]|{})( .+)$'.format(re.escape(bullet_char)))
+    enum_char = getattr(config.markup, "enum_char", None)
+    if enum_char:
+      enum_re = re.compile(
+          r'^(\s*)(\d+)([.:]|{})( .+)$'.format(re.escape(enum_char)))
 
   for line in lines:
     fence_match = fence_re.match(line)
@@ -107,7 +119,7 @@ def parse(lines, config=None):
       continue
 
     if state in (None, CommentType.SEPARATOR, CommentType.RULER):
-      match = BULLET_REGEX.match(line)
+      match = first_bullet_re.match(line)
       if match:
         obj_list.append(CommentItem(CommentType.BULLET_LIST))
         indent_str = match.group(1)
@@ -116,13 +128,11 @@ def parse(lines, config=None):
         obj_list[-1].indent = len(indent_str)
         state = CommentType.BULLET_LIST
 
-        if bullet_punctuation == '*':
-          bullet_punctuation = r'\*'
         bullet_regex = re.compile(
-            '^{}{}( .*)$'.format(indent_str, bullet_punctuation))
+            '^{}{}( .*)$'.format(indent_str, re.escape(bullet_punctuation)))
         continue
 
-      match = ENUM_REGEX.match(line)
+      match = enum_re.match(line)
       if match:
         obj_list.append(CommentItem(CommentType.ENUM_LIST))
         obj_list[-1].lines.append(match.group(4).strip())
@@ -156,7 +166,7 @@ def parse(lines, config=None):
     elif state == CommentType.ENUM_LIST:
       # A new item has either the first digit or the punctuation in the same
       # column as the previous one
-      match = ENUM_REGEX.match(line)
+      match = enum_re.match(line)
       if (match and match.group(3) == prev_enum.group(3) and
           (match.end(1) == prev_enum.end(1) or
            match.end(2) == prev_enum.end(2))):
-- 
2.43.0


From 06345f8b75103cbeeff4eea20a9ebdf261e3a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 71/80] fix: report a surplus argument of add_custom_target as
 E1121, instead of crashing on E1122 without its argument

---
 cmakelang/parse/funs/add_xxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 59dc699..20dcd1e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -249,7 +249,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
       tree.children.append(subtree)
       continue
 
-    ctx.lint_ctx.record_lint("E1122", location=tokens[0].get_location())
+    ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
     # logger.warning(
     #     "Unexpected positional argument %s at %s",
     #     tokens[0].spelling, tokens[0].location())
-- 
2.43.0


From a0110aff31fb53bb3b1fa14430506e998585a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 72/80] fix: report the deprecated form of build_command as
 W0104, instead of crashing on W0106 with the wrong arguments

---
 cmakelang/parse/funs/miscellaneous.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index a08c213..cabe870 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,9 +30,11 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper() not in kwargs:
+  if (second_token is not None
+      and second_token.type is not lex.TokenType.RIGHT_PAREN
+      and second_token.spelling.upper() not in kwargs):
     ctx.lint_ctx.record_lint(
-        "W0106", "build_command(<cachevariable> <makecommand>)",
+        "W0104", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
     return StandardArgTree.parse(ctx, tokens, "2", {}, [], breakstack)
 
-- 
2.43.0


From 768036ac5e498ccd25931a37d0df652862f989fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 73/80] fix: report the surplus argument of set(... CACHE type
 doc FORCE extra)

---
 cmakelang/parse/funs/set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index 716e6f6..976c600 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -102,15 +102,15 @@ def parse_set(ctx, tokens, breakstack):
             "E1120", "<value>", location=tokens[0].get_location())
       elif len(cache_tokens) < 3:
         pass
-      elif len(cache_tokens) > 4:
-        ctx.lint_ctx.record_lint(
-            "E1121", location=cache_tokens[2].get_location())
       else:
         if cache_tokens[2].spelling.upper() == "FORCE":
           cache_args[2] = True
+          surplus_tokens = cache_tokens[3:]
         else:
+          surplus_tokens = cache_tokens[2:]
+        if surplus_tokens:
           ctx.lint_ctx.record_lint(
-              "E1121", location=cache_tokens[2].get_location())
+              "E1121", location=surplus_tokens[0].get_location())
       tree.cache = CacheTuple(*cache_args)
 
     elif word == "PARENT_SCOPE":
-- 
2.43.0


From b14fb1f7b4462a561cc0beebba5c21cc08bcd1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 74/80] fix: give E1120 for an empty group a location, so that
 it can be suppressed

---
 cmakelang/lint/basic_checker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index eb6e4ef..8b96b66 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -597,8 +597,12 @@ class LintChecker(object):
     semantic_tokens = node.get_semantic_tokens()
     if len(semantic_tokens) < min_npargs:
       location = ()
-      if semantic_tokens:
-        location = semantic_tokens[0].get_location()
+      # An empty group is located by the innermost group that is not
+      for ancestor in [node] + self._node_stack[::-1]:
+        semantic_tokens = ancestor.get_semantic_tokens()
+        if semantic_tokens:
+          location = semantic_tokens[0].get_location()
+          break
       local_ctx.record_lint("E1120", location=location)
 
   def check_is_in_loop(self, node):
-- 
2.43.0


From 4e0433382be55050ae2689d35c33395f48278552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 75/80] fix: do not report a foreach without items depending on
 its whitespace

---
 cmakelang/parse/funs/foreach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index cf9b33d..f4ea1f0 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -43,9 +43,9 @@ def parse_foreach_standard(ctx, tokens, breakstack):
   if len(tokens) < ntokens:
     tree.children.append(subtree)
 
-  # Consume the items of iteration
+  # Consume the items of iteration, if any
   ntokens = len(tokens)
-  subtree = PositionalGroupNode.parse(ctx, tokens, '+', [], breakstack)
+  subtree = PositionalGroupNode.parse(ctx, tokens, '*', [], breakstack)
   if len(tokens) < ntokens:
     tree.children.append(subtree)
 
-- 
2.43.0


From 14e986630ea41192cd9b9f11a11313a6acb251d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:50 +0000
Subject: [PATCH 76/80] fix: don't damage files when the output cannot be
 encoded

The output file was truncated, or a temporary file left behind next to the
input, before the encoder raised an error.
---
 cmakelang/format/__main__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 33e66be..f784d4a 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -550,10 +550,15 @@ def onefile_main(infile_path, args, argparse_dict):
       raise common.FormatError("Check failed: {}".format(infile_path))
     return
 
+  if args.in_place and intext == outtext:
+    logger.debug("No delta for %s", infile_path)
+    return
+
+  # NOTE: an output that can not be encoded must not damage any file, so find
+  # out before one is opened.
+  outtext.encode(cfg.encode.output_encoding)
+
   if args.in_place:
-    if intext == outtext:
-      logger.debug("No delta for %s", infile_path)
-      return
     tempfile_path = infile_path + ".cmf-temp"
     outfile = io.open(
         tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')
-- 
2.43.0


From 83ead8a252e2e30c8e4f3c73a4536ea3d63d1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 77/80] fix: match whole names of built-in variables in lint

---
 cmakelang/lint/basic_checker.py | 4 ++--
 cmakelang/parse/variables.py    | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 8b96b66..716ca34 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -276,11 +276,11 @@ class LintChecker(object):
 
     missing_suffix = re.compile(
         r"(?<!\\)(?:\\\\)*"
-        r"(\$\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
+        r"(\$\{)([A-Za-z0-9_]+)")
 
     missing_prefix = re.compile(
         r"(?<!\\)(?:\\\\)*"
-        r"(\$|\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
+        r"(\$|\{)([A-Za-z0-9_]+)")
 
     match_types = (
         TokenType.QUOTED_LITERAL,
diff --git a/cmakelang/parse/variables.py b/cmakelang/parse/variables.py
index 81a6a61..b068541 100644
--- a/cmakelang/parse/variables.py
+++ b/cmakelang/parse/variables.py
@@ -494,7 +494,8 @@ def stripped_patterns():
   return [regex.sub("", pattern) for pattern in PATTERNS]
 
 
+# NOTE: these match whole names, ENVIRONMENT is not the builtin ENV
 CASE_SENSITIVE_REGEX = re.compile(
-    "|".join(stripped_patterns()))
+    "(?:" + "|".join(stripped_patterns()) + r")\Z")
 CASE_INSENSITIVE_REGEX = re.compile(
-    "|".join(stripped_patterns()), re.IGNORECASE)
+    "(?:" + "|".join(stripped_patterns()) + r")\Z", re.IGNORECASE)
-- 
2.43.0


From 0cdf872d967f9da64ef4f2ce6da9a4979f255db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 78/80] fix: lint of a variable reference without its closing
 brace

---
 cmakelang/lint/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 716ca34..17d0c44 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -280,7 +280,7 @@ class LintChecker(object):
 
     missing_prefix = re.compile(
         r"(?<!\\)(?:\\\\)*"
-        r"(\$|\{)([A-Za-z0-9_]+)")
+        r"(\$|(?<!\$)\{)([A-Za-z0-9_]+)")
 
     match_types = (
         TokenType.QUOTED_LITERAL,
-- 
2.43.0


From 97926f4beae5706829adc5a29bcf6ef4e9beb680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 79/80] fix: lint of variable references in unquoted arguments

---
 cmakelang/lint/basic_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 17d0c44..aee3b8f 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -763,9 +763,11 @@ class LintChecker(object):
     # assignment, shadowing, etc
     for token in tree.get_tokens(kind="semantic"):
       if token.type not in (
-          TokenType.QUOTED_LITERAL, TokenType.DEREF):
+          TokenType.QUOTED_LITERAL, TokenType.UNQUOTED_LITERAL,
+          TokenType.DEREF):
         continue
-      for varname in re.findall(r"\$\{([\w_]+)\}", token.spelling):
+      for varname in re.findall(
+          r"(?<!\\)(?:\\\\)*\$\{([\w_]+)\}", token.spelling):
         self.check_varname(varname, token, "Reference to")
 
   def check_comment(self, node):
-- 
2.43.0


From 330d692a83ecf623037cd71b6431135496729e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 80/80] fix: indentation lint of blank lines

---
 cmakelang/lint/basic_checker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index aee3b8f..a018f0b 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -811,6 +811,10 @@ class LintChecker(object):
       self._indent_token = token
       return
 
+    if token.type is TokenType.NEWLINE:
+      # There is nothing but whitespace on this line
+      self._indent_token = None
+
     if self._indent_token:
       # This is the first non-whitespace token on this line
       desired_indentation = (self.get_scope_depth() - 1) * cfg.format.tab_size
-- 
2.43.0

