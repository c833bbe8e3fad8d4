From 22482fd2e791fa5db2f08192e5da6eb50d540a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 01/23] fix: accept every repetition count of a (0:N)
 repetition

X*(0:N) only accepted no X at all or exactly N of them.
---
 nessaid_cli/compiler.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b3404c9..2a624e6 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -223,14 +223,12 @@ class NessaidCliParser(NessaidCliParserCommon):
             if max_count == 1:
                 t[0] = OptionalInputElement((term,))
                 term.parent = t[0]
-            else:
-                t0 = SequenceInputElement((term,))
-                term.parent = t0
-                term.position = 0
-                t0.repeat_count = max_count
-                t[0] = OptionalInputElement((t0,))
-                t0.parent = t[0]
-            return
+                return
+
+        # (0:N) is an optional (1:N)
+        optional = (min_count == 0)
+        if optional:
+            min_count = 1
 
         term_copy = term.copy()
         if min_count == 1:
@@ -253,6 +251,11 @@ class NessaidCliParser(NessaidCliParserCommon):
         block_1.parent = t[0]
         block_2.parent = t[0]
 
+        if optional:
+            repeated = t[0]
+            t[0] = OptionalInputElement((repeated,))
+            repeated.parent = t[0]
+
     def p_repeater(self, t):
         """repeater : INTEGER
                     | LPAREN INTEGER RPAREN
-- 
2.43.0


From fea116c4cc57818d8f4e4a8af3a71f2b222e41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 02/23] fix: keep the repetition count and the actions of a
 sequence inside braces

{X*N} lost its repetition count and accepted a single X, and an action after
a parenthesised sequence in braces saw the token variables of the enclosing
sequence.
---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 2a624e6..62fd16e 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -280,7 +280,7 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1 and not rule.post_match_binding:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
             post_match_binding = rule.post_match_binding
-- 
2.43.0


From 4422072ece63861ffade765e462f89cf6aed5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 03/23] fix: ignore incomplete candidates when a line is
 resolved

With "show" | "show" "all" the complete line show was reported ambiguous,
and an incomplete candidate could be executed instead of the complete one.
---
 nessaid_cli/interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index bf27a1d..5fdbcb3 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -875,6 +875,10 @@ class CliInterface(StdStreamsHolder):
                 if matching_sequences:
                     res.matched_sequence.append(cur_token_input)
                     if not dry_run:
+                        if seq_complete and len(matching_sequences) > 1:
+                            # candidates which need more input can not be executed
+                            matching_sequences = [
+                                seq for seq in matching_sequences if EndOfInpuToken in seq[-1].next()]
                         if seq_complete and len(matching_sequences) > 1:
                             matching_sequences = await self.fix_sequences(matching_sequences, tok_list)
 
-- 
2.43.0


From ab3c9c7a40cb0e8aea19fe538cb0e5e8971d0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 04/23] fix: integer tokens take negative numbers and complete
 0 and unique prefixes

---
 nessaid_cli/tokens.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 73120e4..154d51e 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -290,7 +290,7 @@ class RangedIntToken(CliToken):
 
     async def get_value(self, match_string=None, cli=None): # noqa
         try:
-            if match_string.isnumeric():
+            if match_string.isnumeric() or (match_string.startswith("-") and match_string[1:].isnumeric()):
                 number = int(match_string)
                 if number >= self._start and number <= self._end:
                     return number
@@ -371,11 +371,11 @@ class RangedIntToken(CliToken):
 
     async def match(self, token_input, cli=None):
         if isinstance(token_input, str):
-            n, _comps = await self.complete(token_input, cli=cli) # noqa
+            n, comps = await self.complete(token_input, cli=cli) # noqa
             if n > 1 or n == TOO_MANY_COMPLETIONS:
                 return MATCH_PARTIAL
             elif n == 1:
-                return MATCH_SUCCESS
+                return MATCH_SUCCESS if token_input in comps else MATCH_PARTIAL
         return MATCH_FAILURE
 
     async def complete(self, token_input, cli=None): # noqa
@@ -387,13 +387,13 @@ class RangedIntToken(CliToken):
                 if self._start >= 0:
                     return 0, []
                 if self._end >= 0:
-                    comp_args = [0, -self._start, 0]
+                    comp_args = [1, -self._start, 0]
                 else:
                     comp_args = [-self._end, -self._start, 0]
                 n, comps = await self._complete(*comp_args)
                 if n > 0 and not comps:
                     return TOO_MANY_COMPLETIONS, []
-                return n, [-c for c in comps]
+                return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
                 if count > 10:
@@ -405,21 +405,24 @@ class RangedIntToken(CliToken):
                 if count > self._max_suggestions:
                     comps = []
                 else:
-                    comps = list(range(self._start, self._end + 1))
+                    comps = [str(c) for c in range(self._start, self._end + 1)]
                 return count, comps
 
             else:
                 try:
-                    if token_input.isnumeric():
+                    if token_input.isnumeric() or (token_input.startswith("-") and token_input[1:].isnumeric()):
                         number = int(token_input)
                     else:
                         return 0, []
                 except Exception:
                     return 0, []
 
-                if number < 0 or token_input.startswith("-"):
-                    if number == 0 and self._start == 0:
+                if number == 0:
+                    if self._start <= 0 and self._end >= 0:
                         return 1, ["0"]
+                    return 0, []
+
+                if number < 0:
                     if self._start >= 0:
                         return 0, []
                     if self._end >= 0:
-- 
2.43.0


From ba1a60e899a5e9c94a6b2cc486b3860a70e70275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 05/23] fix: a word with a valid value keeps its candidate
 whatever else it could become

---
 nessaid_cli/interface.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 5fdbcb3..a09ff08 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -775,31 +775,18 @@ class CliInterface(StdStreamsHolder):
                 for p in partial_matches:
                     token = self.get_token(p[-1].name)
                     if token.completable:
-                        if completion:
-                            if dry_run and not token_list and not last_token_complete:
-                                self.append_matching_sequence(matching_sequences, p)
-                            elif len(completion) == 1:
-                                _n, comps = await self.complete_token(token, cur_token_input) # noqa
-                                if len(comps) == 1:
-                                    val = await self.get_token_value(token, cur_token_input)
-                                    if val is not NullTokenValue:
-                                        self.append_matching_sequence(matching_sequences, p)
-                            elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
-                            else:
-                                res.result = MATCH_FAILURE
-                                res.offending_token = tok_list[len(res.matched_sequence)]
-                                res.offending_token_position = len(res.matched_sequence)
-                                res.error = "Ambiguous options matched for the input token: {}".format(
-                                    tok_list[len(res.matched_sequence)])
-                                self.clear_caches()
-                                return res
-                        elif dry_run and not token_list and not last_token_complete:
+                        if dry_run and not token_list and not last_token_complete:
                             self.append_matching_sequence(matching_sequences, p)
-                        elif len(partial_matches) == 1:
-                            v = await self.get_token_value(token, cur_token_input)
-                            if v is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
+                        elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
+                            self.append_matching_sequence(matching_sequences, p)
+                        elif len(completion) > 1:
+                            res.result = MATCH_FAILURE
+                            res.offending_token = tok_list[len(res.matched_sequence)]
+                            res.offending_token_position = len(res.matched_sequence)
+                            res.error = "Ambiguous options matched for the input token: {}".format(
+                                tok_list[len(res.matched_sequence)])
+                            self.clear_caches()
+                            return res
                     else:
                         v = await self.get_token_value(token, cur_token_input)
                         if v is not NullTokenValue:
-- 
2.43.0


From 24114cf0a437b0ead25dc9b6a03a63c0029f668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 06/23] fix: tell derivations apart by their place in the
 grammar

---
 nessaid_cli/interface.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index a09ff08..db94de7 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -931,23 +931,20 @@ class CliInterface(StdStreamsHolder):
 
     async def fix_sequences(self, matching_sequences, tok_list):
         if len(set(len(seq) for seq in matching_sequences)) == 1:
+            # the same derivation may have been reached more than once
+            matching_sequences = list({
+                tuple(t.node.path for t in seq): seq for seq in matching_sequences}.values())
+            if len(matching_sequences) == 1:
+                return matching_sequences
+
             seq_count = len(matching_sequences)
             seq_length = len(matching_sequences[0])
 
             tokens_to_keep = set([i for i in range(seq_count)])
 
-            orderless_set_check_failed = False
-            for i in range(seq_length):
-                tokens = set(seq[i] for seq in matching_sequences)
-                if not self.check_orderless_set_elements(tokens):
-                    orderless_set_check_failed = True
-
-            if not orderless_set_check_failed:
-                return [matching_sequences[0]]
-
             for i in range(seq_length):
-                tokens = set(seq[i] for seq in matching_sequences)
-                if len(tokens) == 1:
+                paths = set(seq[i].node.path for seq in matching_sequences)
+                if len(paths) == 1:
                     continue
                 else:
                     toc_types = []
@@ -957,7 +954,7 @@ class CliInterface(StdStreamsHolder):
                         match = await self.match_token(token, tok_list[i])
                         toc_types.append(match)
 
-                    if MATCH_SUCCESS in toc_types:
+                    if any(toc_types[j] == MATCH_SUCCESS for j in tokens_to_keep):
                         for j in range(seq_count):
                             if j in tokens_to_keep:
                                 if toc_types[j] != MATCH_SUCCESS:
@@ -975,7 +972,7 @@ class CliInterface(StdStreamsHolder):
                         else:
                             toc_types.append(False)
 
-                    if True in toc_types:
+                    if any(toc_types[j] for j in tokens_to_keep):
                         for j in range(seq_count):
                             if j in tokens_to_keep:
                                 if toc_types[j] != True:
-- 
2.43.0


From b47f6c0d711d3cb25d7fe8b7379b97511285154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 07/23] fix: an assignment copies the value of a variable

---
 nessaid_cli/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index db94de7..44cd866 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -247,6 +247,8 @@ class ExecContext():
 
                     if lhs:
                         rhs = await self.resolve_argument(block.rhs)
+                        if isinstance(rhs, BindingVariable):
+                            rhs = rhs.value
                         lhs.assign(rhs)
 
                 elif isinstance(block, BindingCall):
-- 
2.43.0


From 1b3668a35298f34d7ff92db43d28b4ef3dbe4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 08/23] fix: dec() subtracts one

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 44cd866..431c10b 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -504,7 +504,7 @@ class CliInterface(StdStreamsHolder):
         if func_name == 'dec':
             r = args[0]
             try:
-                r = r + 1
+                r = r - 1
             except Exception:
                 pass
             return r
-- 
2.43.0


From deb11e76d95793132251063d53da66b09b17961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 09/23] fix: quote strings which contain a backslash

---
 nessaid_cli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index e7b1e30..b8c9f4a 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -75,7 +75,7 @@ def convert_to_python_string(cli_string, cli=None):
 
 
 def convert_to_cli_string(python_string):
-    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"']):
+    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
         if python_string.startswith('"'):
             python_string = python_string[1:]
-- 
2.43.0


From 7e9a7eb32b48faa829f13b7d4ead4aeced7befd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 10/23] fix: call on_exit once when a context hands a line to
 its parent

---
 nessaid_cli/cmd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index cfb8208..c203a3f 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -476,7 +476,6 @@ class NessaidCmd(NessaidCli):
                 if dry_run:
                     return parent_resp
                 else:
-                    await self.on_exit()
                     raise ChildCliExitException(
                         tok_list=tok_list, dry_run=dry_run,
                         last_token_complete=last_token_complete, arglist=arglist
-- 
2.43.0


From f8e884cdc7cf97f724a01ecd222770447bc488f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 11/23] fix: an empty command file does not block the files
 below it

---
 nessaid_cli/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 68fefbf..57f078d 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -122,6 +122,8 @@ class NessaidCli(CliInterface):
     def file_line(self):
         if self.parent:
             return self.parent.file_line
+        while self._file_data and not self._file_data[-1]:
+            self._file_data.pop()
         if self._file_data:
             file_content = self._file_data[-1]
             if file_content:
-- 
2.43.0


From 767985e2e0e5fd544560f4768290125abb87c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 12/23] fix: keep the context opened by a line handed over
 before the first prompt

---
 nessaid_cli/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 57f078d..1bd854a 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -506,13 +506,13 @@ class NessaidCli(CliInterface):
                 child_cli = self.child_cli
                 try:
                     await child_cli.context_loop()
+                    self.child_cli = None
                 except ChildCliExitException as e:
+                    self.child_cli = None
                     match_output = await self.match(
                         e.token_list, dry_run=e.dry_run,
                         last_token_complete=e.last_token_complete, arglist=e.arglist
                     )
-                finally:
-                    self.child_cli = None
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From 684679346b91dd83e2cd4026e60ea6bc6263d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 13/23] fix: keep quoted and plain strings apart in the string
 cache

---
 nessaid_cli/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index b8c9f4a..370e800 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -39,8 +39,11 @@ class ExtendedString(str):
 
 def convert_to_python_string(cli_string, cli=None):
 
-    if cli and cli_string in cli.str_cache:
-        return cli.str_cache[cli_string]
+    # quoted and plain strings of the same text are converted differently
+    cache_key = (str(cli_string), getattr(cli_string, "quoted", False), getattr(cli_string, "quote_incomplete", False))
+
+    if cli and cache_key in cli.str_cache:
+        return cli.str_cache[cache_key]
 
     converted_str = cli_string
 
@@ -69,7 +72,7 @@ def convert_to_python_string(cli_string, cli=None):
         converted_str = "\\".join(converted_parts)
 
     if cli:
-        cli.cache_string(cli_string, converted_str)
+        cli.cache_string(cache_key, converted_str)
 
     return converted_str
 
-- 
2.43.0


From e271fea5e60ad9e3de794e754af61df58f3cff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 14/23] fix: do not cache the values of path tokens

---
 nessaid_cli/tokens.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 154d51e..80d0e29 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -566,6 +566,11 @@ class PathToken(StringToken):
     FILE = 'file'
     DIRECTORY = 'directory'
 
+    @property
+    def cacheable(self):
+        # the value depends on the state of the file system
+        return False
+
     def __init__(self, name, pathtype=ANY, cli=None, helpstring=None):
         self._pathtype = pathtype
         self._is_windows = None
-- 
2.43.0


From 504ea075d934f3f3ebd14fbaeb0ac55ea331a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 15/23] fix: identifiers in actions may start with a keyword

---
 nessaid_cli/binding_parser/binding_text_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 83e6afa..922473e 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -28,19 +28,19 @@ class NessaidCliBindingLexer(NessaidCliLexerCommon):
     t_ignore_COMMENT = NessaidCliLexerCommon.common_COMMENT
 
     def t_TRUE(self, t):
-        "True"
+        r"True(?![-a-zA-Z0-9_])"
         return t
 
     def t_FALSE(self, t):
-        "False"
+        r"False(?![-a-zA-Z0-9_])"
         return t
 
     def t_NONE(self, t):
-        "None"
+        r"None(?![-a-zA-Z0-9_])"
         return t
 
     def t_CALL(self, t):
-        "call"
+        r"call(?![-a-zA-Z0-9_])"
         return t
 
     def __init__(self, filename="", starting_lineno=1, starting_linepos=0, stdin=None, stdout=None, stderr=None):
-- 
2.43.0


From e2e8bec7a4c85ded7ba747d5df75d261514d76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 16/23] fix: pass every command line argument as one word

---
 nessaid_cli/cmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index c203a3f..a830e6e 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -20,6 +20,7 @@ import tracemalloc
 from datetime import datetime
 
 from nessaid_cli.compiler import compile_grammar
+from nessaid_cli.utils import convert_to_cli_string
 from nessaid_cli.cli import NessaidCli, ChildCliExitException, CliAlreadyRunning
 from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE, MATCH_PARTIAL, MATCH_AMBIGUOUS
 
@@ -376,7 +377,7 @@ class NessaidCmd(NessaidCli):
 
     def exec_args(self, *args):
         modified_args = []
-        chars_to_check = [" "]
+        chars_to_check = [" ", "\t", "\n", '"', "\\"]
         for arg in args:
             if not (arg.startswith('"') and arg.endswith('"')):
                 need_quoting = False
@@ -386,7 +387,7 @@ class NessaidCmd(NessaidCli):
                             need_quoting = True
                             break
                 if need_quoting:
-                    modified_args.append('"' + arg + '"')
+                    modified_args.append(convert_to_cli_string('"' + arg + '"'))
                     continue
             modified_args.append(arg)
 
-- 
2.43.0


From f639c16183c2259512b1eb245a636bc59ec4085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 17/23] fix: undo the escapes of a string once, where it is
 read

---
 nessaid_cli/binding_parser/binding_text_parser.py | 3 ++-
 nessaid_cli/interface.py                          | 4 ++--
 nessaid_cli/tokens.py                             | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 922473e..d656e1e 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -5,6 +5,7 @@
 # file included as part of this package.
 #
 
+from nessaid_cli.utils import convert_to_python_string
 from nessaid_cli.lex_yacc_common import NessaidCliLexerCommon, NessaidCliParserCommon
 
 from nessaid_cli.binding_parser.binding_objects import (
@@ -168,7 +169,7 @@ class NessaidCliBindingParser(NessaidCliParserCommon):
     def p_string_object(self, t):
         """string_object : quoted_string"""
         quoted_str = t[1][1:-1]
-        t[0] = BindingStrObject(quoted_str)
+        t[0] = BindingStrObject(convert_to_python_string(quoted_str))
 
     def p_boolean_true(self, t):
         """boolean_true : TRUE"""
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 431c10b..d327698 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -7,7 +7,7 @@
 
 import asyncio
 
-from nessaid_cli.utils import StdStreamsHolder, convert_to_python_string
+from nessaid_cli.utils import StdStreamsHolder
 
 
 from nessaid_cli.tokens import (
@@ -225,7 +225,7 @@ class ExecContext():
             res = res_arg
 
         if isinstance(res, str):
-            res = convert_to_python_string(str(res), cli=self._interface)
+            res = str(res)
         return res
 
     async def execute_binding(self, binding_code):
diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 80d0e29..b87995b 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -233,7 +233,7 @@ class StringToken(CliToken):
                 match_string = match_string[1:]
             if match_string.endswith('"'):
                 match_string = match_string[:-1]
-            return match_string
+            return convert_to_python_string(match_string, cli=cli)
         return NullTokenValue
 
 
-- 
2.43.0


From c7773ce917fd40401822589fd2c18515328a63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 18/23] fix: an integer token honours its suggestion limit
 before anything is typed

---
 nessaid_cli/tokens.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index b87995b..a0d59fc 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -396,9 +396,7 @@ class RangedIntToken(CliToken):
                 return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
-                if count > 10:
-                    return count, []
-                elif count == 1:
+                if count == 1:
                     return 1, [str(self._start)]
                 elif count == 0:
                     return 0, []
-- 
2.43.0


From 3a50ebfb29d1d9b23bbbb0083637686341183ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 19/23] fix: completion inside an open quoted string completes
 that string

---
 nessaid_cli/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 1bd854a..931530c 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -242,7 +242,10 @@ class NessaidCli(CliInterface):
             self.set_completion_tokens(["Exception tokenizing input line: {}: {}".format(type(e), e)])
             return None
 
-        if line and line[-1] in TOKEN_SEPARATORS:
+        # a blank inside a quoted string which is still open is part of the word
+        quote_open = bool(tokens) and tokens[-1].quote_incomplete and tokens[-1].endswith(line[-1])
+
+        if line and line[-1] in TOKEN_SEPARATORS and not quote_open:
             last_token_complete = True
         else:
             last_token_complete = False
-- 
2.43.0


From cb6f644c4be020be2200bda3f5127e5e0d6c4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 20/23] fix: do not complete a word with the help text of a
 token

---
 nessaid_cli/interface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index d327698..1c450f1 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -121,6 +121,7 @@ class ParsingResult():
 
     async def set_next_tokens(self, cli, cur_input, tokens):
         add_EOI = False
+        free_text = False
         tokens = list(tokens)
         next_tokens = set()
         self.last_token = None
@@ -132,6 +133,7 @@ class ParsingResult():
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
+                        free_text = True
                         next_tokens.add(TokenCompletion(None, helpstring))
                     else:
                         if t.case_insensitive:
@@ -140,6 +142,7 @@ class ParsingResult():
                             h = await t.get_helpstring(str(c), cli=cli)
                             next_tokens.add(TokenCompletion(str(c), h))
                 else:
+                    free_text = True
                     next_tokens.add(TokenCompletion(None, helpstring))
             else:
                 add_EOI = True
@@ -148,7 +151,8 @@ class ParsingResult():
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-        elif cur_input:
+        elif cur_input and not free_text:
+            # help texts are not completions
             common_prefix = self.common_prefix(self.next_tokens)
             if common_prefix:
                 self.last_token = (cur_input, common_prefix)
-- 
2.43.0


From 1bef868f3966592c62e56f5f505ad49e88822c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 21/23] fix: ignore arguments which hold nothing but line ends

---
 nessaid_cli/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index a830e6e..b27c65e 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -379,6 +379,9 @@ class NessaidCmd(NessaidCli):
         modified_args = []
         chars_to_check = [" ", "\t", "\n", '"', "\\"]
         for arg in args:
+            if not arg.strip():
+                # blank arguments are ignored
+                continue
             if not (arg.startswith('"') and arg.endswith('"')):
                 need_quoting = False
                 for c in chars_to_check:
-- 
2.43.0


From dcfa172e43702deb2901f2f5691dac44917f98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 22/23] fix: refuse an action block with a stray symbol

The binding parser reported 'Unused token' and went on, so a grammar with
an action block like << { >> compiled.
---
 nessaid_cli/binding_parser/binding_text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index d656e1e..f77d7d0 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -200,7 +200,7 @@ class NessaidCliBindingParser(NessaidCliParserCommon):
                         | quoted_split_string
                         | eof"""
         print("Syntax error (Unused token)")
-        pass
+        self.p_error(t.slice[1])
 
     def __init__(self, filename="", starting_lineno=1, stdin=None, stdout=None, stderr=None):
         self._filename = filename
-- 
2.43.0


From 4cf240d6e0167473248cdda254f2d82abc849c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 23/23] fix: the empty rounds of a repetition do not make a
 line ambiguous

{"a"} * 2 refused the line a as ambiguous: the word was taken for the
first or the second round.
---
 nessaid_cli/compiler.py | 4 ++++
 nessaid_cli/elements.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 62fd16e..29d4262 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -208,6 +208,10 @@ class NessaidCliParser(NessaidCliParserCommon):
         if min_count < 0 or max_count < 0:
             raise ValueError("Only positive repeaters allowed")
 
+        # If the term may be left out, so may any of its rounds
+        if max_count and not term.mandatory:
+            min_count = max_count
+
         if min_count == max_count:
             if min_count == 0:
                 raise ValueError("0 repeaters not allowed. Delete the term")
diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 81f4f8c..5bc874c 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -787,7 +787,8 @@ class TreeNode():
                 if isinstance(self.element, AlternativeInputElement) or isinstance(self.element, OrderlessSetInputElement):
                     continue
 
-                if elem.mandatory:
+                # the rounds of a repetition are used in order
+                if elem.mandatory or self._element.repeat_count > 1:
                     break
         elif isinstance(self._element, NamedGrammar) or isinstance(self._element, GrammarRefElement):
             firsts = self.get(0).first()
-- 
2.43.0

