From bdd3b789781cc8213196e7b45ef1e2fa26a38d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 01/53] fix: extract_args returns the end of all extracted
 arguments, not of the last group only

---
 latex2json/utils/tex_utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5a57707..3b3160e 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -451,24 +451,23 @@ def extract_args(content: str, req_args=0, opt_args=0):
     """
     Opt args come first, then req args.
     """
-    end_pos = 0
+    total_end_pos = 0
     opt = []
     if opt_args > 0:
         opt, end_pos = extract_nested_content_sequence_blocks(
             content, "[", "]", max_blocks=opt_args
         )
-        if end_pos > 0:
-            content = content[end_pos:]
+        content = content[end_pos:]
+        total_end_pos += end_pos
 
     req = []
     if req_args > 0:
         req, end_pos = extract_nested_content_sequence_blocks(
             content, "{", "}", max_blocks=req_args
         )
-        if end_pos > 0:
-            content = content[end_pos:]
+        total_end_pos += end_pos
 
-    return {"req": req, "opt": opt}, end_pos
+    return {"req": req, "opt": opt}, total_end_pos
 
 
 NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)(\d+)")
-- 
2.43.0


From 752086e7161723b8341926723ed11cd284228696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 02/53] fix: keep every elsif branch's own text when splitting
 a conditional

The text of the last elsif branch was dropped when no else followed, branches
were compared by value instead of identity, and an elsif after the else failed
with an IndexError.
---
 .../parser/handlers/if_else_statements.py     | 36 ++++++++-----------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d8aa73..7fd0c4e 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -94,6 +94,7 @@ def extract_else_elseif_fi(
     else_content = []
     elsif_branches = []
     current_buffer = if_content
+    in_else = False
 
     while pos < content_length and nesting_level > 0:
         # Find all possible next matches
@@ -107,9 +108,10 @@ def extract_else_elseif_fi(
             valid_matches.append((start_match.start(), start_match, "start"))
         if end_match:
             valid_matches.append((end_match.start(), end_match, "end"))
-        if else_match and nesting_level == 1:  # Only consider else at top level
+        # Only consider else/elsif at top level, and only before the else branch
+        if else_match and nesting_level == 1 and not in_else:
             valid_matches.append((else_match.start(), else_match, "else"))
-        if elsif_match and nesting_level == 1:
+        if elsif_match and nesting_level == 1 and not in_else:
             valid_matches.append((elsif_match.start(), elsif_match, "elsif"))
 
         if not valid_matches:
@@ -128,28 +130,20 @@ def extract_else_elseif_fi(
             nesting_level += 1
         elif match_type == "end":
             nesting_level -= 1
-        elif match_type == "else" and nesting_level == 1:
-            if elsif_branches:
+
+        if match_type in ["else", "elsif"] or nesting_level == 0:
+            if elsif_branches and not in_else:
+                # Store the content collected so far for the open elsif branch
                 condition = elsif_branches[-1][0]
                 elsif_branches[-1] = (condition, "".join(current_buffer).strip())
+
+        if match_type == "else":
             current_buffer = else_content
-        elif match_type == "elsif" and nesting_level == 1:
-            # First save the content we've collected so far
-            current_content = "".join(current_buffer).strip()
-            if current_buffer == if_content:
-                if_content = [current_content]
-            else:
-                # Add the previous elsif branch
-                condition = elsif_branches[-1][0]
-                elsif_branches[-1] = (condition, current_content)
-
-            # Start new buffer for the next elsif branch
-            current_buffer = (
-                []
-            )  # Create new empty buffer for collecting the next branch
-            elsif_condition = next_match.group(1)
-            elsif_branches.append((elsif_condition, ""))
-            current_buffer = []  # Reset buffer to collect the elsif content
+            in_else = True
+        elif match_type == "elsif":
+            # Create new empty buffer for collecting the next branch
+            current_buffer = []
+            elsif_branches.append((next_match.group(1), ""))
 
         pos += next_match.end()
 
-- 
2.43.0


From 1f566b718853c838855f12990b02821b196b408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 03/53] fix: a conditional whose last marker ends the text is
 unclosed

---
 latex2json/parser/handlers/if_else_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 7fd0c4e..636710c 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -147,6 +147,9 @@ def extract_else_elseif_fi(
 
         pos += next_match.end()
 
+    if nesting_level > 0:
+        raise ValueError("Unclosed conditional block")
+
     return (
         "".join(if_content).strip(),
         "".join(else_content).strip(),
-- 
2.43.0


From ba29752326b17919a22f41d4ad7933edb704faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 04/53] fix: only real conditionals and complete control words
 pair with fi

Nested brace-style conditionals (ifthenelse, @ifstar, ...) and the relation iff
were counted as needing a fi, else/fi directly before a digit were not
recognised, and the label of an or branch was lost.
---
 .../parser/handlers/if_else_statements.py     | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 636710c..d139007 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -36,12 +36,15 @@ ifx_pattern = re.compile(
 )
 
 
-IF_PATTERN = re.compile(r"\\(?:@)?if%s" % (default_if_pattern))
-ELSE_PATTERN = re.compile(r"\\else\b")
+# Start like a conditional, but take their branches in braces (or, \iff, are no conditional at all): no \fi follows
+not_an_if = r"(?!(?:iff|ifthenelse|@if(?:star|undefined|nextchar|classloaded|packageloaded))(?![a-zA-Z@]))"
+
+IF_PATTERN = re.compile(r"\\%s(?:@)?if%s" % (not_an_if, default_if_pattern))
+ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z@])")
 ELSIF_PATTERN = re.compile(
-    r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
-)  # Matches both \elsif and \elseif
-FI_PATTERN = re.compile(r"\\fi\b")
+    r"\\(?:els(?:e)?if|or(?![a-zA-Z@]))%s" % (default_if_pattern)
+)  # Matches \elsif, \elseif and \or
+FI_PATTERN = re.compile(r"\\fi(?![a-zA-Z@])")
 
 value_pattern = r"\\value\s*{\s*([a-zA-Z@]+)\s*}"
 numbered_command_pattern = r"\\([a-zA-Z@]+)(\d+)"
@@ -80,6 +83,17 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
 )
 
 
+# conditionals whose branches are brace arguments, not closed by \fi
+BRACE_IFS = [
+    "ifthenelse",
+    "iffileexists",
+    "@ifclassloaded",
+    "@ifpackageloaded",
+    "@ifundefined",
+    "@ifstar",
+]
+
+
 def extract_else_elseif_fi(
     content: str,
     start_delimiter: re.Pattern = IF_PATTERN,
@@ -211,6 +225,8 @@ class IfElseBlockHandler(TokenHandler):
             return
         pattern = ""
         for k, v in self.all_ifs:
+            if k in BRACE_IFS:
+                continue
             pattern += "|" + v.pattern
         if pattern.startswith("|"):
             pattern = pattern[1:]
-- 
2.43.0


From 210c924e1e1795d3086ea3bcf5541260c1841e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 05/53] fix: a condition never takes in the next conditional,
 else, or, fi

---
 latex2json/parser/handlers/if_else_statements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index d139007..bb52969 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -11,8 +11,13 @@ from latex2json.parser.patterns import command_with_opt_brace_pattern, command_o
 # Could be character, command, or more complex token
 char_or_command_pattern = r"(?:{\s*)?(?:\\[a-zA-Z@]+|\S)(?:\s*})?"
 
-default_if_pattern = r"\s*(%s\s*%s|.+?)(?=\\|\s|$|\n)" % (
+# The condition never takes in the next conditional, \else, \or or \fi
+marker_pattern = r"\\(?:@?if|els(?:e)?if|(?:else|or|fi)(?![a-zA-Z@]))"
+
+default_if_pattern = r"\s*((?=%s)|%s\s*(?!%s)%s|.+?)(?=\\|\s|$|\n)" % (
+    marker_pattern,
     char_or_command_pattern,
+    marker_pattern,
     char_or_command_pattern,
 )
 
-- 
2.43.0


From 97ed38af1e4956013c98529368688db91e9c6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 06/53] fix: an unclosed tikzpicture or overpic no longer hangs
 the parser

---
 latex2json/parser/packages/overpic.py  | 2 ++
 latex2json/parser/packages/tikz_pgf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/latex2json/parser/packages/overpic.py b/latex2json/parser/packages/overpic.py
index 0622b97..f8774a7 100644
--- a/latex2json/parser/packages/overpic.py
+++ b/latex2json/parser/packages/overpic.py
@@ -27,6 +27,8 @@ class OverpicHandler(TokenHandler):
             return None, 0
 
         start_pos, end_pos, env_content = find_matching_env_block(content, "overpic")
+        if end_pos == -1:  # unclosed
+            return None, match.end()
 
         args, _ = extract_args(env_content, 1, 1)
         if args["req"]:
diff --git a/latex2json/parser/packages/tikz_pgf.py b/latex2json/parser/packages/tikz_pgf.py
index bda51f7..7f2d6bf 100644
--- a/latex2json/parser/packages/tikz_pgf.py
+++ b/latex2json/parser/packages/tikz_pgf.py
@@ -49,6 +49,8 @@ class TikzPGFHandler(TokenHandler):
                     start_pos, end_pos, inner_content = find_matching_env_block(
                         content, env_name
                     )
+                    if end_pos == -1:  # unclosed
+                        return None, match.end()
                     return {
                         "type": "diagram",
                         "name": env_name,
-- 
2.43.0


From 9bcf5493bc8bc4c821629cbbef0200763ef2add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 07/53] fix: flattening tokens without text content to a string

---
 latex2json/utils/tex_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 3b3160e..085a9fd 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -365,10 +365,11 @@ def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
             return token
         elif isinstance(token, list):
             return flatten_all_to_string(token)
-        elif isinstance(token, dict) and isinstance(token.get("content"), list):
-            return flatten_all_to_string(token["content"])
-        else:
-            return token["content"]
+        # not every token has content, e.g. {"type": "appendix"}
+        content = token.get("content") if isinstance(token, dict) else None
+        if isinstance(content, (list, str)):
+            return flatten_all_to_string(content)
+        return ""
 
     return " ".join(flatten_token(token) for token in tokens)
 
-- 
2.43.0


From 8efd8b4ee533cf16c5092cfd478d7cee160198d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 08/53] fix: unclosed braces of commands no longer crash the
 parser

---
 latex2json/parser/handlers/author.py            | 2 ++
 latex2json/parser/handlers/content_command.py   | 2 +-
 latex2json/parser/handlers/formatting.py        | 4 ++++
 latex2json/parser/handlers/legacy_formatting.py | 4 ++++
 latex2json/parser/handlers/text_formatting.py   | 2 ++
 latex2json/parser/tex_parser.py                 | 5 ++++-
 6 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 377c7f0..02f185f 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -72,6 +72,8 @@ class AuthorHandler(TokenHandler):
                 start_pos = match.end() - 1
                 content, end_pos = extract_nested_content(content[start_pos:])
                 total_pos = start_pos + end_pos
+                if content is None:  # unclosed
+                    return None, match.end()
 
                 if name == "thanks":
                     token = {
diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ef0cc6d..617c7b5 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -181,7 +181,7 @@ class ContentCommandHandler(TokenHandler):
             return {
                 "type": "ref",
                 "title": content,
-                "content": [match.group(1).strip()],
+                "content": [match.group(1).strip()] if match.group(1) else [],
             }
 
         # URLs
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 808ae6b..9e6f6db 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -415,6 +415,8 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:  # unclosed
+                        return None, match.end()
                     return {
                         "type": "equation",
                         "content": extracted_content,
@@ -463,6 +465,8 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:  # unclosed
+                        return None, match.end()
                     # Check if it's hphantom or vphantom
                     if match.group(0).startswith("\\hphantom"):
                         # Horizontal phantom - create spaces matching content width
diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 0826ab0..9e9aaae 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -115,6 +115,8 @@ class LegacyFormattingHandler(TokenHandler):
                 if matched_str.startswith("\\color"):
                     # our regex is \color{
                     text, end_pos = extract_nested_content("{" + content[next_pos:])
+                    if text is None:  # unclosed
+                        return "", next_pos
                     modern_command = "textcolor"
 
                     if match.group(1):
@@ -129,6 +131,8 @@ class LegacyFormattingHandler(TokenHandler):
                     # simple \tt{text}
                     next_pos -= 1  # remove the opening brace
                     text, end_pos = extract_nested_content(content[next_pos:])
+                    if text is None:  # unclosed
+                        return "", match.end()
                     content_to_format = text.strip()
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 7607fbe..06331fa 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -261,6 +261,8 @@ class TextFormattingHandler(TokenHandler):
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
         start_pos = match.end() - 1
         caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
+        if caption is None:  # unclosed
+            return None, match.end()
         caption = caption.strip()
 
         total_pos = start_pos + end_pos
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 38e2e41..d959efe 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -231,7 +231,10 @@ class LatexParser:
                     content[end_pos - 1 :]
                 )
                 end_pos += inner_end_pos - 1
-                total_content += inner_content + "}"
+                if inner_content is None:  # unclosed
+                    total_content = command
+                else:
+                    total_content += inner_content + "}"
 
             expanded = self._expand_command(total_content)
 
-- 
2.43.0


From 7ef8ce8ca5683b012c6ab9e74247f9d16c8f849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 09/53] fix: names of defined commands are matched literally,
 not as regular expressions

---
 latex2json/parser/handlers/command_processor.py  |  8 ++++----
 latex2json/parser/handlers/if_else_statements.py |  2 +-
 latex2json/parser/handlers/new_definition.py     | 11 +++++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 0fe83da..070d804 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -328,7 +328,7 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"(?:true|false)"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
@@ -349,14 +349,14 @@ class CommandProcessor:
             return "", start_pos + end_pos
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": handler,
         }
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
@@ -364,7 +364,7 @@ class CommandProcessor:
     def process_newcounter(self, var_name: str):
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\the" + var_name + r"\b"),
+            "pattern": re.compile(r"\\the" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands["newcounter:" + var_name] = command
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index bb52969..b427ae5 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -216,7 +216,7 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + var_name + r"(?:true|false)?")
+        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?")
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 7166b80..0cc02a3 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -341,14 +341,14 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "num_args": 0,
                 "defaults": [],
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         else:
             token = {
                 "type": "let",
                 "name": name,
                 "content": content,
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         return token, match.end()
 
@@ -493,10 +493,13 @@ class NewDefinitionHandler(TokenHandler):
                         usage_suffix = USAGE_SUFFIX
                         if add_usage_suffix:
                             _, _, usage_suffix = token["usage_pattern"].partition(
-                                "\\" + first_inner.replace(" ", "")
+                                "\\" + re.escape(first_inner.replace(" ", ""))
                             )
                         inner_csname_regex = (
-                            r"\\csname" + first_inner + r"\\endcsname" + usage_suffix
+                            r"\\csname"
+                            + re.escape(first_inner)
+                            + r"\\endcsname"
+                            + usage_suffix
                         )
                         token["usage_pattern"] = (
                             token["usage_pattern"] + "|" + inner_csname_regex
-- 
2.43.0


From 71b88fc3887bded8cbf1f59fa22117bff288fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 10/53] fix: an incomplete ifthenelse is reported as unclosed
 instead of raising

---
 latex2json/parser/handlers/if_else_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index b427ae5..a4d7fc6 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -188,7 +188,7 @@ def try_handle_ifthenelse(
             content[start_pos:], "{", "}", max_blocks=3
         )
         if len(blocks) != 3:
-            raise ValueError("Invalid \\ifthenelse structure")
+            return None, 0  # incomplete
         return {
             "type": "conditional-ifthenelse",
             "condition": blocks[0],
-- 
2.43.0


From 07f0833394ba68084b27dfd35c6d84dab6ecf1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 11/53] fix: an unclosed group no longer hangs the parser

---
 latex2json/parser/handlers/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fcd0320..d2fd99e 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -325,7 +325,7 @@ class BaseEnvironmentHandler(TokenHandler):
                 )
 
             if end_pos == -1:
-                return None, 0
+                return None, match.end()  # unclosed
 
             token = {
                 "type": ENV_TYPES.get("group", "environment"),
-- 
2.43.0


From 3a1d66377bb85c004dd19c82b748156e8e9c6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 12/53] fix: reading a file never fails on its encoding and
 keeps ASCII and UTF-8 text exactly

---
 latex2json/utils/encoding.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 045f973..c674b41 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -49,12 +49,17 @@ def read_file(path):
     Returns:
         str: Content of the file
     """
-    encoding = detect_encoding(path)
+    # ASCII and UTF-8 are unambiguous, a guess could only get them wrong
+    try:
+        with open(path, "r", encoding="utf-8-sig") as f:
+            return f.read()
+    except UnicodeDecodeError:
+        encoding = detect_encoding(path)
 
     try:
         with open(path, "r", encoding=encoding) as f:
             return f.read()
-    except UnicodeDecodeError:
+    except (UnicodeError, LookupError):
         # First fallback: try utf-8 with error handling
         try:
             with open(path, "r", encoding="utf-8", errors="replace") as f:
-- 
2.43.0


From 298b91f1b8a0cb282aea5e0ce40c912b3223e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 13/53] fix: escaped braces in a table do not hide the
 separators behind them

---
 latex2json/parser/handlers/tabular.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f920e8e..a4c3e67 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -7,6 +7,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
+    is_escaped,
 )
 
 
@@ -50,28 +51,19 @@ def split_latex_content(
     i = 0
 
     while i < len(content):
-        # Check for escaped delimiter
-        is_escaped = False
-        if content[i : i + len(delimiter)] == delimiter:
-            # Count backslashes before delimiter
-            backslash_count = 0
-            pos = i - 1
-            while pos >= 0 and content[pos] == "\\":
-                backslash_count += 1
-                pos -= 1
-            # If odd number of backslashes, the delimiter is escaped
-            is_escaped = (backslash_count % 2) == 1
-
-        if content[i] == "{":
+        # Braces and delimiters after an odd number of backslashes are escaped
+        escaped = is_escaped(i, content)
+
+        if content[i] == "{" and not escaped:
             nesting_level += 1
             current_part.append(content[i])
-        elif content[i] == "}":
+        elif content[i] == "}" and not escaped:
             nesting_level -= 1
             current_part.append(content[i])
         elif (
             content[i : i + len(delimiter)] == delimiter
             and nesting_level == 0
-            and not is_escaped
+            and not escaped
         ):
             # Only split when we're not inside brackets and delimiter is not escaped
             current_part = "".join(current_part).strip()
-- 
2.43.0


From bff64a707d7ae9fe89f04e7ccc60a954dbf111d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 14/53] fix: an unclosed makecell no longer crashes and the
 text around one is kept

---
 latex2json/parser/handlers/tabular.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index a4c3e67..3fd296b 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -103,8 +103,14 @@ def split_cells(row: str) -> List[str]:
     for cell in cells:
         if cell:
             match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
-            if match:
-                cell, end_pos = extract_nested_content(cell[match.end() - 1 :])
+            while match:
+                inner, end_pos = extract_nested_content(cell[match.end() - 1 :])
+                if inner is None:
+                    break
+                cell = (
+                    cell[: match.start()] + inner + cell[match.end() - 1 + end_pos :]
+                )
+                match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
         out_cells.append(cell)
     return out_cells
 
-- 
2.43.0


From d6d8ac18114e6bde2b05b32e27a103eadc28f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 15/53] fix: numbering parts and sections deeper than level 3
 does not fail the build

---
 latex2json/structure/builder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 14439a9..d011383 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -121,6 +121,7 @@ class TokenBuilder:
 
     def reset_numbering(self):
         """Reset section numbering state"""
+        self.part_number = 0
         self.section_numbers = {1: 0, 2: 0, 3: 0}
         self.math_env_number = 0  # resets when section changes
         # equation, table, figure are simple sequential counters
@@ -141,13 +142,19 @@ class TokenBuilder:
 
         level = token.get("level", 1)
 
+        # Parts have a counter of their own and leave the section counters alone
+        if level < 1:
+            self.part_number += 1
+            token["numbering"] = str(self.part_number)
+            return
+
         # Reset lower level counters if needed
         if reset_lower_levels:
             for l in range(level + 1, max(self.section_numbers.keys()) + 1):
                 self.section_numbers[l] = 0
 
         # Increment current level counter
-        self.section_numbers[level] += 1
+        self.section_numbers[level] = self.section_numbers.get(level, 0) + 1
 
         # Build section number string
         # First number is a letter if in appendix i.e. 1->A, 2->B, etc.
@@ -157,7 +164,7 @@ class TokenBuilder:
             else str(self.section_numbers[1])
         )
         number_parts = [first_num] + [
-            str(self.section_numbers[l]) for l in range(2, level + 1)
+            str(self.section_numbers.get(l, 0)) for l in range(2, level + 1)
         ]
         token["numbering"] = ".".join(number_parts)
 
-- 
2.43.0


From e4e79a03bc32aeed4b79fffe41c953b508618eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 16/53] fix: theorem numbers follow the section number also
 after starred sections and in the appendix

---
 latex2json/structure/builder.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index d011383..bd8c34a 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -184,10 +184,12 @@ class TokenBuilder:
         self.figure_env_number += 1
         token["numbering"] = str(self.figure_env_number)
 
-    def _update_math_env_numbering(self, token):
+    def _update_math_env_numbering(self, token, in_appendix=False):
         self.math_env_number += 1
-        # Use current section number + sequential counter
+        # Use current section number (a letter in the appendix) + sequential counter
         section_prefix = str(self.section_numbers[1])
+        if in_appendix and self.section_numbers[1] > 0:
+            section_prefix = chr(64 + self.section_numbers[1])
         token["numbering"] = f"{section_prefix}.{self.math_env_number}"
 
     def _convert_inline_equations_to_text(self, tokens):
@@ -326,14 +328,14 @@ class TokenBuilder:
         token["content"] = []
         stack.append(token)
 
-    def _check_update_numbering(self, token: Dict[str, any]):
+    def _check_update_numbering(self, token: Dict[str, any], in_appendix=False):
         if token.get("numbered"):
             if token["type"] == "equation":
                 self._update_equation_numbering(token)
             elif token["type"] == "algorithm":
                 self._update_algorithm_numbering(token)
             elif token["type"] == "math_env":
-                self._update_math_env_numbering(token)
+                self._update_math_env_numbering(token, in_appendix)
             elif token["type"] == "table":
                 self._update_table_env_numbering(token)
             elif token["type"] == "figure":
@@ -376,7 +378,7 @@ class TokenBuilder:
                 continue
 
             # Handle token numbering
-            self._check_update_numbering(token)
+            self._check_update_numbering(token, in_appendix)
 
             # Handle list depth
             if token["type"] == "list":
@@ -404,8 +406,8 @@ class TokenBuilder:
                 self._update_section_numbering(
                     token, reset_lower_levels=True, in_appendix=in_appendix
                 )
-                # Reset math environment counter when section changes
-                if token.get("level") == 1:
+                # Reset math environment counter when the section number changes
+                if token.get("level", 1) == 1 and token.get("numbered", True):
                     self.math_env_number = 0
 
                 self._manage_stack(token, section_stack, root)
-- 
2.43.0


From 20dbed2f5ebae296eeeeb38107f3e8003dba707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 17/53] fix: a subparagraph inside a section stays under its
 paragraph

---
 latex2json/structure/builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index bd8c34a..2f1d047 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -319,9 +319,9 @@ class TokenBuilder:
 
         # Determine where to add the token
         target = (
-            parent_stack[-1]["content"]
-            if parent_stack
-            else (stack[-1]["content"] if stack else organized)
+            stack[-1]["content"]
+            if stack
+            else (parent_stack[-1]["content"] if parent_stack else organized)
         )
         target.append(token)
 
-- 
2.43.0


From f0e287b0cf12151389f4717f4f8c50389415524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 18/53] fix: what follows a bibliography after an appendix is
 not moved in front of it

---
 latex2json/structure/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 2f1d047..6d219e5 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -400,6 +400,7 @@ class TokenBuilder:
             if token["type"] == "bibliography":
                 section_stack.clear()
                 paragraph_stack.clear()
+                root = organized  # a bibliography also closes the appendix
                 organized.append(token)
             elif token["type"] == "section":
                 paragraph_stack.clear()
-- 
2.43.0


From e84743a0b90fed3e2814cb7c70fd9e63d64b9995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 19/53] fix: joining texts keeps the labels of every one of
 them

---
 latex2json/structure/builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 6d219e5..02a8d04 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -228,6 +228,10 @@ class TokenBuilder:
                         current_text_token["content"] += (
                             " " + next_content if add_space else next_content
                         )
+                        if token.get("labels"):
+                            current_text_token["labels"] = (
+                                current_text_token.get("labels", []) + token["labels"]
+                            )
                     else:
                         concatenated_tokens.append(current_text_token)
                         current_text_token = token
-- 
2.43.0


From 4e7ff776668dd10f312a76d48257d0947e88bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 20/53] fix: a table without column specification does not fail
 the build

---
 latex2json/parser/handlers/tabular.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 3fd296b..fce3e2d 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -318,6 +318,7 @@ class TabularHandler(BaseEnvironmentHandler):
         token = {
             "type": "tabular",
             "environment": env_type,  # Store the specific environment type
+            "content": [],
         }
 
         # Extract column spec using nested content extraction
-- 
2.43.0


From a40e95a3d3dc757cf40fdb3fd7bf40bc1e20f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 21/53] fix: an empty algorithm does not fail the build

---
 latex2json/structure/tokens/code_and_algo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/code_and_algo.py b/latex2json/structure/tokens/code_and_algo.py
index 44eebdd..ce667d0 100644
--- a/latex2json/structure/tokens/code_and_algo.py
+++ b/latex2json/structure/tokens/code_and_algo.py
@@ -1,5 +1,5 @@
 from enum import Enum
-from typing import List, Optional
+from typing import List, Optional, Union
 
 from pydantic import Field
 
@@ -21,7 +21,7 @@ class AlgorithmToken(EnvironmentToken):
     """Represents algorithm environment"""
 
     type: TokenType = TokenType.ALGORITHM
-    content: List[BaseToken] = Field(default_factory=list)
+    content: Union[str, List[BaseToken]] = Field(default_factory=list)
     numbering: Optional[str] = None
 
 
-- 
2.43.0


From bce1a0aaf564ffb8cbe5ed838f8f4d2ecbb18b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 22/53] fix: text before the first item of a list does not fail
 the build

---
 latex2json/structure/tokens/table_figure_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/table_figure_list.py b/latex2json/structure/tokens/table_figure_list.py
index 04cb863..5f45519 100644
--- a/latex2json/structure/tokens/table_figure_list.py
+++ b/latex2json/structure/tokens/table_figure_list.py
@@ -47,5 +47,5 @@ class ListToken(EnvironmentToken):
     """Represents itemize/enumerate/description environments"""
 
     type: TokenType = TokenType.LIST
-    content: List[ItemToken] = Field(default_factory=list)
+    content: List[BaseToken] = Field(default_factory=list)
     depth: int = 1
-- 
2.43.0


From 1d3886f91f0da3caa05548a0fe41462ce4a59011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 23/53] fix: tokens of unknown type inside tables, equations
 and theorems are dropped instead of failing the build

---
 latex2json/structure/tokens/base.py     | 8 ++++++--
 latex2json/structure/tokens/equation.py | 4 +++-
 latex2json/structure/tokens/tabular.py  | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 6064cd3..e0e858b 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -90,11 +90,15 @@ class MathEnvToken(BaseToken):
         proof = None
         if "content" in data:
             for item in data["content"]:
-                content.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    content.append(token)
         if "title" in data:
             title = []
             for item in data["title"]:
-                title.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    title.append(token)
         if "proof" in data:
             proof = create_token(data["proof"])
 
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index 8a76244..8481935 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -35,7 +35,9 @@ class EquationToken(BaseToken):
             for k, v in data["placeholders"].items():
                 out = []
                 for item in v:
-                    out.append(create_token(item))
+                    token = create_token(item)
+                    if token is not None:
+                        out.append(token)
                 placeholder_dict[k] = out
 
         return cls(
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 5bc60e5..488c5fa 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -102,7 +102,9 @@ class TabularToken(BaseToken):
         processed_list = []
         for item in nested_list:
             if isinstance(item, dict) and "type" in item:
-                processed_list.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    processed_list.append(token)
             elif isinstance(item, list):
                 processed_list.append(cls._process_nested_list(item, create_token))
             else:
-- 
2.43.0


From 1c548c6fc47cdaaf907f4790a23a946110214ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 24/53] fix: tables and bibliographies keep their labels and
 styles in the built document

---
 latex2json/structure/tokens/bibliography.py | 6 +++++-
 latex2json/structure/tokens/tabular.py      | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/bibliography.py b/latex2json/structure/tokens/bibliography.py
index 6739deb..3699417 100644
--- a/latex2json/structure/tokens/bibliography.py
+++ b/latex2json/structure/tokens/bibliography.py
@@ -41,4 +41,8 @@ class BibliographyToken(BaseToken):
                 if isinstance(token, BibItemToken):
                     processed_content.append(token)
 
-        return cls(content=processed_content)
+        return cls(
+            content=processed_content,
+            labels=data.get("labels"),
+            styles=data.get("styles"),
+        )
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 488c5fa..5c4af7e 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -92,7 +92,11 @@ class TabularToken(BaseToken):
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
-        return cls(content=all_cells)
+        return cls(
+            content=all_cells,
+            labels=data.get("labels"),
+            styles=data.get("styles"),
+        )
 
     @classmethod
     def _process_nested_list(
-- 
2.43.0


From c3fe84a6685db3729b260aa33b2d42e49536043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 25/53] fix: tokens in titles and placeholders keep all their
 fields when serialized

---
 latex2json/structure/tokens/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index e0e858b..4d61141 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -43,6 +43,11 @@ class BaseToken(BaseModel):
         else:
             result["content"] = self.serialize_value(self.content, **kwargs)
 
+        # Tokens in other fields (titles, placeholders, ...) keep all their data too
+        for name, value in self:
+            if name != "content" and isinstance(value, (BaseToken, list, dict)):
+                result[name] = self.serialize_value(value, **kwargs)
+
         # Remove None values if exclude_none is True
         if exclude_none:
             result = {k: v for k, v in result.items() if v is not None}
-- 
2.43.0


From 86a69cefa6a6c0db6109e4d30ddd9b8133fd37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 26/53] fix: footnotes, captions and reference titles of
 equations may be plain text

---
 latex2json/structure/tokens/ref_and_cite.py      | 8 ++++----
 latex2json/structure/tokens/table_figure_list.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/latex2json/structure/tokens/ref_and_cite.py b/latex2json/structure/tokens/ref_and_cite.py
index 06aedff..2ac1277 100644
--- a/latex2json/structure/tokens/ref_and_cite.py
+++ b/latex2json/structure/tokens/ref_and_cite.py
@@ -1,5 +1,5 @@
 from enum import Enum
-from typing import List, Optional
+from typing import List, Optional, Union
 
 from latex2json.structure.tokens.base import BaseToken
 from latex2json.structure.tokens.types import TokenType
@@ -9,7 +9,7 @@ class CitationToken(BaseToken):
     """Represents citations"""
 
     type: TokenType = TokenType.CITATION
-    title: Optional[List[BaseToken]] = None
+    title: Optional[Union[str, List[BaseToken]]] = None
     content: List[str]
 
 
@@ -17,7 +17,7 @@ class ReferenceToken(BaseToken):
     """Represents references"""
 
     type: TokenType = TokenType.REF
-    title: Optional[List[BaseToken]] = None
+    title: Optional[Union[str, List[BaseToken]]] = None
     content: List[str]
 
 
@@ -31,4 +31,4 @@ class UrlToken(BaseToken):
 
 class FootnoteToken(BaseToken):
     type: TokenType = TokenType.FOOTNOTE
-    content: List[BaseToken]
+    content: Union[str, List[BaseToken]]
diff --git a/latex2json/structure/tokens/table_figure_list.py b/latex2json/structure/tokens/table_figure_list.py
index 5f45519..de8031c 100644
--- a/latex2json/structure/tokens/table_figure_list.py
+++ b/latex2json/structure/tokens/table_figure_list.py
@@ -32,7 +32,7 @@ class CaptionToken(BaseToken):
 
     type: TokenType = TokenType.CAPTION
     title: Optional[str] = None
-    content: List[BaseToken]
+    content: Union[str, List[BaseToken]]
 
 
 # LISTS AND ITEMS
-- 
2.43.0


From b871bb1710e17a9744c802467b924fa08d6e8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 27/53] fix: section titles and titles inside equations may be
 plain text

---
 latex2json/structure/tokens/document.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/structure/tokens/document.py b/latex2json/structure/tokens/document.py
index c45dd1f..eae6cea 100644
--- a/latex2json/structure/tokens/document.py
+++ b/latex2json/structure/tokens/document.py
@@ -1,4 +1,4 @@
-from typing import List, Optional
+from typing import List, Optional, Union
 from latex2json.structure.tokens.base import BaseToken, EnvironmentToken
 from latex2json.structure.tokens.types import TokenType
 
@@ -9,12 +9,12 @@ class DocumentToken(BaseToken):
 
 class TitleToken(BaseToken):
     type: TokenType = TokenType.TITLE
-    content: List[BaseToken]
+    content: Union[str, List[BaseToken]]
 
 
 class SectionToken(BaseToken):
     type: TokenType = TokenType.SECTION
-    title: List[BaseToken]
+    title: Union[str, List[BaseToken]]
     level: int
     numbering: Optional[str] = None  # e.g. 3.1.2
     content: Optional[List[BaseToken]] = []
@@ -22,7 +22,7 @@ class SectionToken(BaseToken):
     def model_dump(self, **kwargs):
         result = super().model_dump(**kwargs)
 
-        if self.title:
+        if isinstance(self.title, list):
             result["title"] = [
                 self.serialize_value(token, **kwargs) for token in self.title
             ]
-- 
2.43.0


From 352ba30c525b8ac1def5c90705b46387ec2416c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 28/53] fix: extracting a tar archive never creates links or
 special files

---
 latex2json/tex_file_extractor.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d8ef713..30e4779 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -134,7 +134,24 @@ class TexFileExtractor:
                         # Extract only safe members (use filter='data' in Python 3.12+ for better security)
                         # For broader compatibility, we extract member by member after checks
                         for member in safe_members:
-                            tar.extract(member, temp_dir)
+                            if member.isfile() or member.isdir():
+                                tar.extract(member, temp_dir, filter="data")
+                                continue
+                            # A link could lead out of temp_dir: copy the archived
+                            # file it refers to, and skip every other special file
+                            try:
+                                source = tar.extractfile(member)
+                            except KeyError:
+                                source = None
+                            if source is None:
+                                print(
+                                    f"[WARNING] Skipping link or special file in tar.gz: {member.name}"
+                                )
+                                continue
+                            target = os.path.join(temp_dir, member.name)
+                            os.makedirs(os.path.dirname(target), exist_ok=True)
+                            with source, open(target, "wb") as f_out:
+                                shutil.copyfileobj(source, f_out)
 
                     main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                         temp_dir
-- 
2.43.0


From 6d596853b5b62df3fcf56a79f175b3948547ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 29/53] fix: remove the temporary directory of an archive that
 could not be processed

---
 latex2json/tex_file_extractor.py | 6 +++---
 latex2json/tex_reader.py         | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 30e4779..239b8e9 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -221,9 +221,9 @@ class TexFileExtractor:
             yield main_tex, temp_dir
 
         finally:
-            # Clean up temporary directory
-            if cleanup:
-                shutil.rmtree(temp_dir)
+            # Clean up temporary directory (nobody could do it later after a failure)
+            if cleanup or not processed:
+                shutil.rmtree(temp_dir, ignore_errors=True)
 
     @classmethod
     def from_folder(cls, folder_path):
diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index cc98317..9030783 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -203,7 +203,12 @@ class TexReader:
                     f"Found main TeX file in archive: {main_tex}, {compressed_path}"
                 )
                 file_path = os.path.join(temp_dir, main_tex)
-                output = self.process_file(file_path)
+                try:
+                    output = self.process_file(file_path)
+                except BaseException:
+                    # Without a result nobody could clean up later
+                    shutil.rmtree(temp_dir, ignore_errors=True)
+                    raise
                 output.temp_dir = temp_dir
                 return output
         except Exception as e:
-- 
2.43.0


From fe5b43c4016e7e11f63313c3015089dc1df16b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 30/53] fix: cleaning up a result whose temporary directory is
 already gone is harmless

---
 latex2json/tex_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index 9030783..d64a19b 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -28,7 +28,7 @@ class ProcessingResult:
     def cleanup(self):
         """Clean up temporary resources."""
         if self.temp_dir:
-            shutil.rmtree(self.temp_dir)
+            shutil.rmtree(self.temp_dir, ignore_errors=True)
             self.temp_dir = None
 
 
-- 
2.43.0


From 30ac3be9cdf8518b85010c67fa43e1f9e39fe91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 31/53] fix: saved boxes and citation aliases belong to a
 parser, not to all of them

---
 latex2json/parser/handlers/content_command.py | 4 +++-
 latex2json/parser/packages/boxes.py           | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 617c7b5..3a69d89 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -85,7 +85,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 class ContentCommandHandler(TokenHandler):
-    citealias = {}  # key, alias/title
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.citealias = {}  # key, alias/title
 
     def clear(self):
         self.citealias = {}
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 6dd435a..b27b3c9 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -66,8 +66,10 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 
 
 class BoxHandler(TokenHandler):
-    saved_boxes = {}
-    numbered_boxes = {}  # Add storage for numbered boxes
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.saved_boxes = {}
+        self.numbered_boxes = {}  # Add storage for numbered boxes
 
     def can_handle(self, content: str) -> bool:
         return bool(
-- 
2.43.0


From c4cadd6353675b5a6cc6f5f8830ac41c99f8ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 32/53] fix: clearing a parser also clears what its equation
 handlers remember

---
 latex2json/parser/handlers/equation.py | 1 +
 latex2json/parser/tex_preprocessor.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 9d723df..dc65f84 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -64,6 +64,7 @@ class EquationHandler(TokenHandler):
 
     def clear(self):
         self.box_handler.clear()
+        self.content_command.clear()
 
     def can_handle(self, content: str) -> bool:
         """Check if content contains an equation pattern."""
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5fbc3f3..adbe2c6 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -80,6 +80,7 @@ class LatexPreprocessor:
         self.if_else_block_handler.clear()
         self.command_manager.clear()
         self.sty_parser.clear()
+        self.equation_handler.clear()
 
     def preprocess(self, content: str, file_dir=None) -> tuple[str, list[Dict]]:
         """Main preprocessing pipeline
-- 
2.43.0


From b701da87a307b8c7551e6586497c36328dfb25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 33/53] fix: only #1 to #9 are parameter marks, and an escaped
 backslash escapes nothing

---
 latex2json/utils/tex_utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 085a9fd..c1f2091 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -471,13 +471,12 @@ def extract_args(content: str, req_args=0, opt_args=0):
     return {"req": req, "opt": opt}, total_end_pos
 
 
-NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)(\d+)")
-
-HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)(\d+)")
+# group 1: a backslash and the character it escapes; otherwise a parameter mark #1 to #9
+HASH_NUMBER_PATTERN = re.compile(r"(\\.)|(#+)([1-9])", re.DOTALL)
 
 
 def check_string_has_hash_number(text: str) -> bool:
-    return bool(NO_ESC_HASH_NUMBER_PATTERN.search(text))
+    return any(m.group(2) for m in HASH_NUMBER_PATTERN.finditer(text))
 
 
 def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
@@ -493,16 +492,17 @@ def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
     if not args:
         return definition
 
-    # Use a regex that only finds unescaped '#' sequences.
-    matches = list(NO_ESC_HASH_NUMBER_PATTERN.finditer(definition))
-    if not matches:
-        return definition
-    min_hashes = min((len(m.group(1)) for m in matches), default=0)
+    # Only unescaped '#' sequences count.
+    min_hashes = 0
+    for m in HASH_NUMBER_PATTERN.finditer(definition):
+        hashes = m.group(2)
+        if hashes and (min_hashes == 0 or len(hashes) < min_hashes):
+            min_hashes = len(hashes)
     if min_hashes < 1:
         return definition
 
     def sub_fn(match):
-        # If group(1) matched, it's an escaped hash, so leave it as is.
+        # If group(1) matched, it's an escaped character, so leave it as is.
         if match.group(1) is not None:
             return match.group(0)
         # Otherwise, it's an unescaped substitution token.
-- 
2.43.0


From 6c37fd2a205e54eeebb147e2551863bfb2727652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 34/53] fix: the second backslash of a line break does not
 start a macro call

---
 latex2json/parser/handlers/command_processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 070d804..057e137 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -10,6 +10,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
     substitute_patterns,
     extract_nested_content,
+    is_escaped,
     substitute_args,
 )
 from latex2json.parser.handlers.new_definition import (
@@ -404,6 +405,9 @@ class CommandProcessor:
 
         def sub_fn(text, match, cmd_name):
             nonlocal match_count
+            # the second backslash of \\ (a line break) does not start a command
+            if is_escaped(match.start(), text):
+                return "\\", match.start() + 1
             match_count += 1
             if cmd_name not in command_entries:
                 return match.group(0), match.end()
-- 
2.43.0


From 28eb17ffb57e732d14aa29d4fd233f90b57ac8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 35/53] fix: arguments of def macros may be nested groups,
 commands and delimited text with braces

---
 latex2json/parser/handlers/new_definition.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 0cc02a3..b57280e 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -114,6 +114,11 @@ PATTERNS = {
 
 USAGE_SUFFIX = r"(?![a-zA-Z@])"
 
+# text with balanced braces (a regular expression has to bound the nesting depth)
+BALANCED_BRACES = r"(?:[^{}\\]|\\.)*"
+for _ in range(8):
+    BALANCED_BRACES = r"(?:[^{}\\]|\\.|\{%s\})*" % BALANCED_BRACES
+
 
 def extract_and_concat_nested_csname(content: str) -> Tuple[str, int]:
     match = START_CSNAME_PATTERN.match(content)
@@ -572,7 +577,13 @@ class NewDefinitionHandler(TokenHandler):
             # Add the args pattern to capture delimiters and args e.g. {xxx} or x
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
             # Update regex to handle escaped braces and normal braces
-            args_part_pattern = r"\s*(?:\{((?:[^{}]|\\\{|\\\}|{[^{}]*})*)\}|([^\}]+?))"
+            # without a delimiter the argument is a group, a command or a character;
+            # with one it is everything (balanced) up to the delimiter
+            undelimited = r"\s*(?:\{(%s)\}|(\\[a-zA-Z@]+|\\.|[^\s{}\\]))" % BALANCED_BRACES
+            delimited = r"\s*(?:\{(%s)\}(?=%%s)|(%s?))" % (
+                BALANCED_BRACES.replace("%", "%%"),
+                BALANCED_BRACES.replace("%", "%%"),
+            )
 
             current_pos = 0
             for param in re.finditer(r"#(\d+)", args):
@@ -581,7 +592,11 @@ class NewDefinitionHandler(TokenHandler):
                 if before_param:
                     parts.append(re.escape(before_param))
 
-                parts.append(args_part_pattern)
+                delimiter = re.match(r"[^#]*", args[param.end() :]).group(0)
+                if delimiter:
+                    parts.append(delimited % re.escape(delimiter))
+                else:
+                    parts.append(undelimited)
 
                 current_pos = param.end()
                 param_count += 1
-- 
2.43.0


From c7ba48cc88a33b4a741a007ea587a195623e5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 36/53] fix: keep labels given in the plain text of table cells

---
 latex2json/parser/handlers/tabular.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index fce3e2d..1b46e1c 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -346,6 +346,17 @@ class TabularHandler(BaseEnvironmentHandler):
             # then flatten it out to text form and pass it to parse_tabular
             flattened_content, reference_map = flatten_tokens(processed_content)
 
+            # text is flattened without its labels, so these become the table's own
+            if not isinstance(processed_content, str):
+                labels = [
+                    label
+                    for t in processed_content
+                    if t["type"] == "text" and "styles" not in t
+                    for label in t.get("labels", [])
+                ]
+                if labels:
+                    token["labels"] = labels
+
             # then set back the table structures to the original content
             for ref_key, structure in table_structures.items():
                 flattened_content = flattened_content.replace(
-- 
2.43.0


From d00599ac816acfe3cc6916d5c01e4da66dd964b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 37/53] fix: a saved box is copied at every use, so that labels
 after one use do not show on the others

---
 latex2json/parser/packages/boxes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index b27b3c9..32195d3 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,5 @@
 from typing import Dict, List, Tuple, Optional
+import copy
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
@@ -173,7 +174,7 @@ class BoxHandler(TokenHandler):
         elif command == "usebox":
             # Return the saved box content if it exists
             if box_name in self.saved_boxes and self.saved_boxes[box_name] is not None:
-                return self.saved_boxes[box_name], match.end()
+                return copy.deepcopy(self.saved_boxes[box_name]), match.end()
 
         return None, match.end()
 
-- 
2.43.0


From 13900526a69a95648743eac8ddd7d5b7ee14770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 38/53] fix: text without style is joined with the text around
 it

---
 latex2json/parser/handlers/text_formatting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 06331fa..c456ce9 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -152,7 +152,8 @@ class TextFormattingHandler(TokenHandler):
                     # Prepend parent styles before child styles
                     new_token_styles = token["styles"] + new_token_styles
                 # remove duplicates
-                new_token["styles"] = list(OrderedDict.fromkeys(new_token_styles))
+                if new_token_styles:
+                    new_token["styles"] = list(OrderedDict.fromkeys(new_token_styles))
                 return new_token, total_pos
             else:
                 token["content"] = inner_content
-- 
2.43.0


From 8358457bcf83b24c6c7efb258baa78b2fe96a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 39/53] fix: labels of joined text and of empty environments
 are kept

---
 latex2json/parser/tex_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index d959efe..64f91c4 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -207,10 +207,14 @@ class LatexParser:
                         if add_space and not tokens[-1]["content"].endswith(" "):
                             tokens[-1]["content"] += " "
                         tokens[-1]["content"] += token_dict["content"]
+                        # labels of the joined text stay attached
+                        for label in token_dict.get("labels", []):
+                            tokens[-1].setdefault("labels", []).append(label)
+                            self.labels[label] = tokens[-1]
                         return
                 elif typing in ["group", "environment", "list"]:
                     # ignore empty
-                    if len(token_dict["content"]) < 1:
+                    if len(token_dict["content"]) < 1 and not token_dict.get("labels"):
                         return
 
             tokens.append(token_dict)
-- 
2.43.0


From 2bd9b8acb1470072862575efc2299f739416a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 40/53] fix: a label after a footnote belongs to what encloses
 the footnote

---
 latex2json/parser/tex_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 64f91c4..9a9afae 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -381,10 +381,12 @@ class LatexParser:
                         tokens.extend(input_tokens)
                 return
             elif token["type"] in ["footnote", "caption"]:
-                # prev_env = self.current_env
+                prev_env = self.current_env
                 self.current_env = token
                 token["content"] = self.parse(token["content"])
-                # self.current_env = prev_env
+                # a label after a caption is the caption's, a label after a footnote is not the footnote's
+                if token["type"] == "footnote":
+                    self.current_env = prev_env
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-- 
2.43.0


From c8ed25e5e4ae74ec967a84fac90bff81775404fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 41/53] fix: words separated by whitespace stay separate when
 the second comes from a group or a command

---
 latex2json/parser/tex_parser.py | 36 +++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 9a9afae..d4611bd 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -352,13 +352,18 @@ class LatexParser:
         return {"type": "bibliography", "content": non_duplicate_tokens}
 
     def _process_token(
-        self, token: str | Dict | List[Dict], tokens: List[Dict], is_env_type=False
+        self,
+        token: str | Dict | List[Dict],
+        tokens: List[Dict],
+        is_env_type=False,
+        add_space: bool = False,
     ) -> None:
         if isinstance(token, str):
             token = {"type": "text", "content": token}
         elif isinstance(token, list):
             for t in token:
-                self._process_token(t, tokens)
+                self._process_token(t, tokens, add_space=add_space)
+                add_space = False
             return
         else:
             if token["type"] == "bibliography":
@@ -420,9 +425,11 @@ class LatexParser:
                 if "title" in token and isinstance(token["title"], str):
                     token["title"] = self.parse(token["title"])
 
-        self.add_token(token, tokens)
+        self.add_token(token, tokens, add_space)
 
-    def _check_handlers(self, content: str, tokens: List[Dict]) -> Tuple[bool, int]:
+    def _check_handlers(
+        self, content: str, tokens: List[Dict], add_space: bool = False
+    ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
         Returns:
@@ -437,6 +444,7 @@ class LatexParser:
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
+                        add_space=add_space,
                     )
                 return True, end_pos
         return False, 0
@@ -514,6 +522,9 @@ class LatexParser:
             if current_pos >= len(content):
                 break
 
+            # whitespace in front separates what follows from preceding text
+            add_space = current_pos > 0 and content[current_pos - 1].isspace()
+
             # Add handling for bare braces at the start i.e. latex grouping {content here}
             if content[current_pos] == "{":
                 # Find matching closing brace
@@ -521,9 +532,10 @@ class LatexParser:
                 if inner_content is not None:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
-                    if nested_tokens:
-                        for token in nested_tokens:
-                            self.add_token(token, tokens)
+                    add_space = add_space or inner_content[:1].isspace()
+                    for token in nested_tokens:
+                        self.add_token(token, tokens, add_space)
+                        add_space = False
                     current_pos += end_pos
                     continue
 
@@ -546,10 +558,6 @@ class LatexParser:
                         next_pos -= 1
                     if handle_unknown_commands:
                         text = self._expand_command(text)
-                    # check if preceding text is a space
-                    add_space = False
-                    if current_pos > 0 and content[current_pos - 1].isspace():
-                        add_space = True
                     self.add_token(text, tokens, add_space)
                 current_pos += next_pos
                 if not next_delimiter:
@@ -602,7 +610,9 @@ class LatexParser:
                     continue
 
             # try each handler
-            matched, end_pos = self._check_handlers(content[current_pos:], tokens)
+            matched, end_pos = self._check_handlers(
+                content[current_pos:], tokens, add_space
+            )
             current_pos += end_pos
             if matched:
                 continue
@@ -620,7 +630,7 @@ class LatexParser:
                 token, end_pos = self._check_unknown_command(content[current_pos:])
                 current_pos += end_pos
                 if token:
-                    self.add_token(token, tokens)
+                    self.add_token(token, tokens, add_space)
                     if token["type"] == "command":
                         cmd_name = token["command"]
                         if cmd_name not in self._unknown_commands:
-- 
2.43.0


From 5c2f5488e169aceef72fee66d144c8bc9da845f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 42/53] fix: code blocks come out of preprocessing and comment
 stripping as they are

---
 latex2json/parser/tex_parser.py       |  8 ++-
 latex2json/parser/tex_preprocessor.py | 80 +++++++++++++++++++++++++--
 2 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index d4611bd..b779d96 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -31,9 +31,11 @@ from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     read_tex_file_content,
-    strip_latex_comments,
 )
-from latex2json.parser.tex_preprocessor import LatexPreprocessor
+from latex2json.parser.tex_preprocessor import (
+    LatexPreprocessor,
+    strip_comments_outside_code_blocks,
+)
 from latex2json.parser.patterns import (
     PATTERNS,
     DELIM_PATTERN,
@@ -506,7 +508,7 @@ class LatexParser:
         if not isinstance(content, str):
             return content
 
-        content = strip_latex_comments(content)
+        content = strip_comments_outside_code_blocks(content)
 
         if preprocess:
             content = self.preprocess(content)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index adbe2c6..c9c7314 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -21,6 +21,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    is_escaped,
     strip_latex_comments,
     normalize_whitespace_and_lines,
 )
@@ -55,6 +56,66 @@ QUOTE_PATTERNS = {
 }
 
 
+def find_code_blocks(content: str) -> list[re.Match]:
+    """
+    Finds all code blocks (verbatim, lstlisting, verb) in source order, leaving out those in comments.
+    """
+    blocks = []
+    pos = 0
+    while True:
+        matches = [p.search(content, pos) for p in VERBATIM_PATTERNS.values()]
+        matches = [m for m in matches if m]
+        if not matches:
+            return blocks
+        match = min(matches, key=lambda m: m.start())
+        start = match.start()
+        line = (content[pos:start] + "\\").splitlines()[-1]
+        if any(c == "%" and not is_escaped(i, line) for i, c in enumerate(line)):
+            # commented out, continue at the end of the line
+            pos = start + len(content[start:].splitlines()[0])
+        elif is_escaped(start, content):
+            # a line break in front of plain text
+            pos = start + 1
+        else:
+            blocks.append(match)
+            pos = match.end()
+
+
+def get_placeholder_prefix(content: str, name: str) -> str:
+    """
+    Returns a prefix for placeholders that does not occur in the content.
+    """
+    while name in content:
+        name += "X"
+    return f"__{name}__"
+
+
+def extract_code_blocks(content: str) -> tuple[str, dict]:
+    """
+    Extracts code blocks from the content and replaces them with placeholders.
+    Returns the modified content and a dictionary mapping placeholders to the original code blocks.
+    """
+    prefix = get_placeholder_prefix(content, "CODE_BLOCK")
+    blocks = {}
+    output = []
+    pos = 0
+    for match in find_code_blocks(content):
+        placeholder = f"{prefix}{len(blocks)}__"
+        blocks[placeholder] = match.group(0)
+        output.extend([content[pos : match.start()], placeholder])
+        pos = match.end()
+    output.append(content[pos:])
+    return "".join(output), blocks
+
+
+def strip_comments_outside_code_blocks(content: str) -> str:
+    """
+    Strips comments but leaves the text of code blocks as it is.
+    """
+    content, blocks = extract_code_blocks(content)
+    return restore_placeholder_blocks(strip_latex_comments(content), blocks)
+
+
 def restore_placeholder_blocks(content: str, blocks: dict) -> str:
     """
     Restores the blocks in the content by replacing placeholders with the original blocks.
@@ -88,7 +149,8 @@ class LatexPreprocessor:
         Returns:
             tuple: (processed_content, list of definition tokens)
         """
-        # 1. Strip comments
+        # 1. Strip comments, but keep code blocks out of this and all further processing
+        content, code_blocks = extract_code_blocks(content)
         content = strip_latex_comments(content)
 
         # 2. Check for documentclass (only once at the start)
@@ -97,7 +159,9 @@ class LatexPreprocessor:
             content = content[end_pos:]
 
         # 3. Process all definitions and expand commands
-        content, tokens = self._process_definitions_and_expand(content, file_dir)
+        content, tokens = self._process_definitions_and_expand(
+            content, file_dir, code_blocks
+        )
         out_tokens.extend(tokens)
 
         # 4. After all expansions, normalize whitespace and lines
@@ -106,6 +170,7 @@ class LatexPreprocessor:
         content, verbatim_blocks = self._extract_verbatim_blocks(content)
         content = normalize_whitespace_and_lines(content)
         content = restore_placeholder_blocks(content, verbatim_blocks)
+        content = restore_placeholder_blocks(content, code_blocks)
 
         return content, out_tokens
 
@@ -181,7 +246,7 @@ class LatexPreprocessor:
         return tokens
 
     def _process_definitions_and_expand(
-        self, content: str, file_dir: str = None
+        self, content: str, file_dir: str = None, code_blocks: dict = {}
     ) -> tuple[str, list[Dict]]:
         """Handle all definitions and command expansions
 
@@ -192,6 +257,7 @@ class LatexPreprocessor:
         tokens = []  # Store all definition tokens
 
         math_blocks = {}
+        math_prefix = get_placeholder_prefix(content, "MATH_BLOCK")
 
         while current_pos < len(content):
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
@@ -222,7 +288,7 @@ class LatexPreprocessor:
                 token, end_pos = self.equation_handler.handle(content[current_pos:])
                 if end_pos > 0:
                     # store the math block as placeholder to restore later
-                    placeholder = f"__MATH_BLOCK_{len(math_blocks)}__"
+                    placeholder = f"{math_prefix}{len(math_blocks)}__"
                     math_blocks[placeholder] = content[
                         current_pos : current_pos + end_pos
                     ]
@@ -264,6 +330,10 @@ class LatexPreprocessor:
                 ):
                     current_pos += end_pos
                     continue
+                # definitions outlive the code blocks of this content
+                for key, value in token.items():
+                    if isinstance(value, str):
+                        token[key] = restore_placeholder_blocks(value, code_blocks)
                 self._process_new_definition_token(token)
                 tokens.append(token)
                 if end_pos > 0:
@@ -332,7 +402,7 @@ class LatexPreprocessor:
         Returns the modified content and a dictionary mapping placeholders to the original verbatim blocks.
         """
         blocks = {}
-        placeholder_prefix = "__VERBATIM_BLOCK__"
+        placeholder_prefix = get_placeholder_prefix(content, "VERBATIM_BLOCK")
         output = []
         pos = 0
         placeholder_index = 0
-- 
2.43.0


From b16eb417e62d21a90c8ffb760525c1b3269c0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 43/53] fix: BibTeX values may be bare, concatenated or hold
 quotes in braces, and entries inside values are no entries

---
 latex2json/parser/bib/bibtex_parser.py | 88 +++++++++++++++++++-------
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 40e896f..36ca71b 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -3,9 +3,10 @@ from enum import Enum
 from logging import Logger
 import logging
 import re
-from typing import Dict, List, Optional
+from typing import Dict, List, Optional, Tuple
 from latex2json.utils.tex_utils import (
     extract_nested_content,
+    is_escaped,
 )
 from latex2json.parser.bib.compiled_bibtex import (
     is_compiled_bibtex,
@@ -44,7 +45,56 @@ class BibTexEntry:
 
 
 BibTexPattern = re.compile(r"@(\w+)\s*\{")
-BibTexFieldPattern = re.compile(r"(\w+)\s*=\s*")
+BibTexFieldPattern = re.compile(r"([\w:.+/-]+)\s*=\s*")
+BibTexBareValuePattern = re.compile(r"[^\s,#\"{}=]+")
+
+# these hold no bibliography entry
+NON_ENTRY_TYPES = {"comment", "preamble", "string"}
+
+
+def find_closing_quote(text: str) -> int:
+    """Position of the quote that closes the one at the start of text, -1 if there is none"""
+    depth = 0
+    for i in range(1, len(text)):
+        if text[i] in "{}" and not is_escaped(i, text):
+            depth += 1 if text[i] == "{" else -1
+        elif text[i] == '"' and depth <= 0:
+            return i
+    return -1
+
+
+def parse_bibtex_value(text: str) -> Tuple[Optional[str], int]:
+    """
+    Parse the field value at the start of text: braced, quoted or bare parts joined by #.
+    Returns the value (None if there is none) and the position behind it.
+    """
+    parts = []
+    pos = 0
+    while True:
+        start = pos + len(text[pos:]) - len(text[pos:].lstrip())
+        rest = text[start:]
+        if rest.startswith("{"):
+            part, length = extract_nested_content(rest)
+            if part is None:
+                break
+        elif rest.startswith('"'):
+            length = find_closing_quote(rest) + 1
+            if length == 0:
+                break
+            part = rest[1 : length - 1]
+        else:
+            match = BibTexBareValuePattern.match(rest)
+            if not match:
+                break
+            part, length = match.group(0), match.end()
+        parts.append(part)
+        pos = start + length
+        match = re.match(r"\s*#", text[pos:])
+        if not match:
+            break
+        pos += match.end()
+
+    return ("".join(parts).strip() if parts else None), pos
 
 
 class BibTexParser:
@@ -96,10 +146,12 @@ class BibTexParser:
             content = "\n".join(bibtex_entries)
 
         entries = []
-        pos = 0
+        entry_end = 0
 
         # Find each entry starting with @
         for match in re.finditer(BibTexPattern, content):
+            if match.start() < entry_end:
+                continue  # part of the previous entry
             entry_type = match.group(1).lower()
             start_pos = match.end() - 1  # Position of the opening brace
 
@@ -107,11 +159,14 @@ class BibTexParser:
             entry_content, next_pos = extract_nested_content(content[start_pos:])
             if entry_content is None:
                 continue
+            entry_end = start_pos + next_pos
+            if entry_type in NON_ENTRY_TYPES or not entry_content.strip():
+                continue
 
             # Split into citation key and fields
             key_end = entry_content.find(",")
             if key_end == -1:
-                continue
+                key_end = len(entry_content)
 
             citation_key = entry_content[:key_end].strip()
             fields_text = entry_content[key_end + 1 :].strip()
@@ -128,26 +183,13 @@ class BibTexParser:
                 field_name = field_match.group(1).lower()
                 field_start = pos + field_match.end()
 
-                # Get value - either in braces or quotes
-                if fields_text[field_start:].lstrip().startswith("{"):
-                    # Skip whitespace to actual brace
-                    while (
-                        field_start < len(fields_text)
-                        and fields_text[field_start].isspace()
-                    ):
-                        field_start += 1
-                    value, value_end = extract_nested_content(fields_text[field_start:])
-                    if value is not None:
-                        fields[field_name] = value.strip()
-                        pos = field_start + value_end
+                # Get value - in braces, in quotes or bare (e.g. a number)
+                value, value_end = parse_bibtex_value(fields_text[field_start:])
+                if value is not None:
+                    fields[field_name] = value
+                    pos = field_start + value_end
                 else:
-                    # Handle quoted values
-                    quote_match = re.match(r'\s*"([^"]*)"', fields_text[field_start:])
-                    if quote_match:
-                        fields[field_name] = quote_match.group(1)
-                        pos = field_start + quote_match.end()
-                    else:
-                        pos = field_start + 1
+                    pos = field_start + 1
 
                 # Skip trailing comma and whitespace
                 while pos < len(fields_text) and (
-- 
2.43.0


From 86ec4d4fdf6b15985e7b5b30f84da704baa5923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 44/53] fix: bysame after an author with a backslash, and every
 bibliography environment of a source

---
 latex2json/parser/bib/bibitem_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 8beaff1..c589d79 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -23,11 +23,11 @@ class BibItemParser:
 
     def parse(self, content: str) -> List[BibTexEntry]:
         # If content is in bibliography environment, extract the content
-        bib_match = re.search(
+        bib_matches = re.findall(
             r"\\begin{(\w*bibliography)}(.*?)\\end{\1}", content, re.DOTALL
         )
-        if bib_match:
-            content = bib_match.group(2)
+        if bib_matches:
+            content = "\n".join(bib_content for _, bib_content in bib_matches)
 
         entries = []
         previous_content = None
@@ -44,7 +44,7 @@ class BibItemParser:
                     # Extract author part from previous entry (up to first comma)
                     author_part = previous_content.split(",")[0]
                     if author_part:
-                        item = bysame_pattern.sub(author_part, item)
+                        item = bysame_pattern.sub(lambda _: author_part, item)
 
                 entry = BibTexEntry(
                     citation_key=match.group(2).strip(),
-- 
2.43.0


From c089df7348b75cb90d53d1cf05ac2c645928662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 45/53] fix: percent signs in BibTeX values, bibliography files
 of any encoding, bibitem lists with an at sign before a brace

---
 latex2json/parser/bib/bib_parser.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index e8c7323..ccf829a 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -1,6 +1,7 @@
 from logging import Logger
 import logging
 import os
+import re
 from typing import List
 
 from latex2json.parser.bib.bibtex_parser import (
@@ -9,15 +10,24 @@ from latex2json.parser.bib.bibtex_parser import (
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
+from latex2json.parser.bib.compiled_bibtex import is_compiled_bibtex
+from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
     normalize_whitespace_and_lines,
 )
 
 
-def preprocess(content: str) -> str:
+# in BibTeX sources a % within a line is no comment (e.g. in urls)
+COMMENT_LINE_PATTERN = re.compile(r"^[ \t]*%.*$", re.MULTILINE)
+
+
+def preprocess(content: str, is_bibtex: bool = False) -> str:
     """Preprocess content to remove comments and normalize whitespace"""
-    content = strip_latex_comments(content)
+    if is_bibtex:
+        content = COMMENT_LINE_PATTERN.sub("", content)
+    else:
+        content = strip_latex_comments(content)
     content = normalize_whitespace_and_lines(content)
     return content.strip()
 
@@ -41,7 +51,8 @@ class BibParser:
     def parse(self, content: str) -> List[BibTexEntry]:
         """Parse both BibTeX, bibitem, and bibdiv entries from the content"""
 
-        content = preprocess(content)
+        source = content
+        content = preprocess(source)
 
         entries = []
 
@@ -50,7 +61,11 @@ class BibParser:
             self.logger.debug("Parsing bibdiv environment content")
             entries.extend(self.bibdiv_parser.parse(content))
         # Use the can_handle method for BibTeX
-        elif self.bibtex_parser.can_handle(content):
+        elif self.bibtex_parser.can_handle(
+            content.partition("\\bibitem")[0]
+        ) or is_compiled_bibtex(content):
+            if not is_compiled_bibtex(content):
+                content = preprocess(source, is_bibtex=True)
             entries.extend(self.bibtex_parser.parse(content))
         # Use the can_handle method for BibItem (now includes bibliography environment check)
         elif self.bibitem_parser.can_handle(content):
@@ -67,8 +82,7 @@ class BibParser:
         #     self.logger.warning(f"BibParser: Already parsed {file_path}")
         #     return None
         # self._parsed_files.add(file_path)
-        with open(file_path, "r") as f:
-            return f.read()
+        return read_file(file_path)
 
     def parse_file(self, file_path: str) -> List[BibTexEntry]:
         """Parse a bibliography file and return list of entries.
-- 
2.43.0


From 6ce056d40439a462042cbba3842e9e386cb70cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 46/53] fix: values of bibdiv fields keep the braces of command
 arguments

---
 latex2json/parser/bib/bibdiv_parser.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/bib/bibdiv_parser.py b/latex2json/parser/bib/bibdiv_parser.py
index 1e443b2..85ffbe5 100644
--- a/latex2json/parser/bib/bibdiv_parser.py
+++ b/latex2json/parser/bib/bibdiv_parser.py
@@ -5,6 +5,7 @@ import re
 from typing import Dict, List, Optional
 from latex2json.utils.tex_utils import (
     extract_nested_content,
+    is_escaped,
 )
 from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
@@ -12,6 +13,22 @@ BibDivPattern = re.compile(r"\\begin\s*{bibdiv}")
 BibPattern = re.compile(r"\\bib\s*\{([^}]+)\}\s*\{([^}]+)\}")
 
 
+def strip_brace_groups(value: str) -> str:
+    """Strip braces that only group, i.e. that are not around the argument of a command or the like"""
+    out = []
+    stack = []
+    for i, c in enumerate(value):
+        if c == "{" and not is_escaped(i, value):
+            stack.append(i == 0 or value[i - 1].isspace() or value[i - 1] in "{([,~-")
+            if stack[-1]:
+                continue
+        elif c == "}" and stack and not is_escaped(i, value):
+            if stack.pop():
+                continue
+        out.append(c)
+    return "".join(out)
+
+
 class BibDivParser:
     def __init__(self, logger: Logger = None):
         self.logger = logger or logging.getLogger(__name__)
@@ -93,7 +110,7 @@ class BibDivParser:
                     )
                     if value is not None:
                         # Strip any remaining braces from the value
-                        value = re.sub(r"\{([^}]*)\}", r"\1", value)
+                        value = strip_brace_groups(value)
                         value = value.strip()
                         # Handle multiple instances of the same field
                         if field_name in fields:
@@ -108,7 +125,7 @@ class BibDivParser:
                         comma_pos = len(entry_content)
                     value = entry_content[field_start:comma_pos].strip()
                     # Strip any remaining braces from the value
-                    value = re.sub(r"\{([^}]*)\}", r"\1", value)
+                    value = strip_brace_groups(value)
                     # Handle multiple instances of the same field
                     if field_name in fields:
                         fields[field_name] = f"{fields[field_name]} and {value}"
-- 
2.43.0


From f6e5dbc065267772716a8030502b4cb7996f51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 47/53] fix: a style command followed by nothing but whitespace
 does not fail

---
 latex2json/parser/handlers/text_formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index c456ce9..aed3632 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -127,8 +127,8 @@ class TextFormattingHandler(TokenHandler):
             else:
                 # get first character that is not space
                 index = find_first_nonspace(next_content)
-                content_to_format = next_content[index]
-                if content_to_format == "\\":
+                content_to_format = next_content[index : index + 1]
+                if content_to_format in ("", "\\"):
                     # if command, no content
                     content_to_format = ""
                     total_pos = match.start(2)
-- 
2.43.0


From b8a4d7dcebb2829291163e94b7480feb9c741916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 48/53] fix: an unclosed environment pair inside an equation no
 longer hangs or garbles it

---
 latex2json/parser/handlers/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index d2fd99e..966d1c0 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -126,6 +126,9 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
         start_pos, end_pos, inner_content = extract_nested_content_pattern(
             content, r"\\" + env_name, r"\\end" + env_name
         )
+        if end_pos == -1:  # unclosed, leave as is
+            match = pattern.search(content, match.end(1))
+            continue
         inner_content = convert_any_env_pairs_to_begin_end(inner_content)
         inner_content = r"\begin{%s}%s\end{%s}" % (env_name, inner_content, env_name)
         content = content[:start_pos] + inner_content + content[end_pos:]
-- 
2.43.0


From 8d55aff2219066f366d18e55b8bd580a7b5b807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 49/53] fix: an environment pair whose name starts with begin
 no longer fails

---
 latex2json/parser/handlers/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 966d1c0..828e0e7 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -266,7 +266,7 @@ class BaseEnvironmentHandler(TokenHandler):
             match = ENVIRONMENT_PATTERN.match(content)
         if match and match.re.pattern == ENVIRONMENT_PATTERN.pattern:
             # Verify it's an environment match
-            is_begin = match.group(0).startswith("\\begin")
+            is_begin = match.group(1) is not None
             # Find the correct ending position for this environment
             if is_begin:
                 env_name = match.group(1).strip()
-- 
2.43.0


From f8189a2ad6cd61d620e0c3db3658e2b47097b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 50/53] fix: a superscript digit as the argument count of
 \newenvironment does not fail

---
 latex2json/parser/handlers/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 828e0e7..eacda7e 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -528,7 +528,7 @@ class EnvironmentHandler(BaseEnvironmentHandler):
         )
         if blocks:
             first_arg = blocks[0].strip()
-            if first_arg.isdigit():
+            if first_arg.isdecimal():
                 token["num_args"] = int(first_arg)
             for block in blocks[1:]:
                 token["optional_args"].append(block.strip())
-- 
2.43.0


From 3ebae1d44c06ed061a8c9d08013e7dffdbf1739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:34 +0000
Subject: [PATCH 51/53] fix: a font, size or color switch no longer cuts off
 the start of a longer switch that follows it

---
 latex2json/parser/handlers/legacy_formatting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 9e9aaae..b84b5dc 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -212,7 +212,10 @@ class LegacyFormattingHandler(TokenHandler):
 
                     # if exact match detected, we remove it because it acts like a off switch
                     # e.g. \em some italic text ... \em no longer italic
-                    if command and re.match(r"\\" + command, content[total_pos:]):
+                    if command and re.match(
+                        r"\\" + re.escape(command) + r"(?![a-zA-Z])",
+                        content[total_pos:],
+                    ):
                         total_pos += len(command) + 1
 
                     return formatted_text, total_pos
-- 
2.43.0


From 0c1427958c5d028aee6a1be97acc182f23ae4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:34 +0000
Subject: [PATCH 52/53] fix: text of a bibitem does not end at commands like
 \bibitemNoStop

---
 latex2json/parser/bib/bibitem_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index c589d79..25c2694 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -6,7 +6,7 @@ from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
 class BibItemParser:
     BibItemPattern = re.compile(
-        r"\\bibitem\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem|$)",
+        r"\\bibitem\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem(?![a-zA-Z@])|$)",
         re.DOTALL,
     )
     NewblockPattern = re.compile(r"\\newblock\b")
-- 
2.43.0


From eb60a3a158d4723d9ed2d330d9962647d2acef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:34 +0000
Subject: [PATCH 53/53] fix: the widest label of a second thebibliography is no
 text of the last entry of the first

---
 latex2json/parser/bib/bibitem_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 25c2694..86fe50f 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -27,7 +27,13 @@ class BibItemParser:
             r"\\begin{(\w*bibliography)}(.*?)\\end{\1}", content, re.DOTALL
         )
         if bib_matches:
-            content = "\n".join(bib_content for _, bib_content in bib_matches)
+            # what precedes the first item (the widest label) belongs to no entry
+            items = []
+            for _, bib_content in bib_matches:
+                first = self.BibItemPattern.search(bib_content)
+                if first:
+                    items.append(bib_content[first.start() :])
+            content = "\n".join(items)
 
         entries = []
         previous_content = None
-- 
2.43.0

