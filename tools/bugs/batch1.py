EL, IF, CO, TO = "nessaid_cli/elements.py", "nessaid_cli/interface.py", "nessaid_cli/compiler.py", "nessaid_cli/tokens.py"
CL, CM, UT, TK = "nessaid_cli/cli.py", "nessaid_cli/cmd.py", "nessaid_cli/utils.py", "nessaid_cli/tokenizer/tokenizer.py"
BO, BP = "nessaid_cli/binding_parser/binding_objects.py", "nessaid_cli/binding_parser/binding_text_parser.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("b01-alt-nullable-third", "C01",
    [(EL, "        for elem in self._value:\n            if not elem.mandatory:\n                self._mandatory = False",
          "        for elem in self._value[:2]:\n            if not elem.mandatory:\n                self._mandatory = False")],
    "a choice of three or more alternatives of which only a later one may be empty",
    "such a choice counts as mandatory, so lines which leave it out are refused",
    '''
c = Cli('root: ("a" | "b" | {"c"}) "d";')
check(c.run_words(["d"])[0], "success")
check(c.run_words(["c", "d"])[0], "success")
check(c.run_words(["a", "d"])[0], "success")
''')

bug("b02-outer-set-history", "C01",
    [(EL, "                        for f in firsts:\n                            f.copy_lookup_path_from(self, temp_parent.parent)\n",
          "                        for f in firsts:\n")],
    "a set one of whose members is a sequence, the sequence not being the first member typed",
    "the members of the outer set already given are forgotten inside the sequence and may be given again",
    '''
c = Cli('root: ("a" "x"), "b", "c";')
check(c.run_words(["b", "a", "x", "c"])[0], "success")
check(c.run_words(["b", "a", "x", "b"])[0], "failure")
check(c.run_words(["b", "a", "x", "b", "c"])[0], "failure")
''')

bug("b03-three-readings", "C02",
    [(IF, "                                if toc_types[j] != MATCH_SUCCESS:\n                                    tokens_to_keep.remove(j)\n\n                    if len(tokens_to_keep) == 1:\n                        return [matching_sequences[list(tokens_to_keep)[0]]]\n\n                    toc_types = []",
          "                                if toc_types[j] == MATCH_PARTIAL:\n                                    tokens_to_keep.remove(j)\n                                    break\n\n                    if len(tokens_to_keep) == 1:\n                        return [matching_sequences[list(tokens_to_keep)[0]]]\n\n                    toc_types = []")],
    "three readings of one line, two of which abbreviate the same word",
    "only one of the readings which merely abbreviate a word is dropped, the rest of the comparison picks the wrong one or reports an ambiguity",
    '''
c = Cli('root: "a" << call rec("exact"); >> | "ab" << call rec("ab"); >> | "abc" << call rec("abc"); >>;')
check(c.run_words(["a"]), ("success", [("exact",)]))
check(c.run_words(["ab"]), ("success", [("ab",)]))
''')

bug("b04-help-cache", "C03",
    [(IF, "        if (name, helpstring) not in self._tokens:", "        if helpstring and (name, None) in self._tokens:\n            helpstring = None\n        if (name, helpstring) not in self._tokens:")],
    "a token with a help text which was already looked up without one",
    "the offers carry the name of the token in place of its help text",
    '''
c = Cli('root: "a" : "first" ("b" : "second" | "c");')
def helps(words):
    async def go():
        c.enter_grammar("root")
        try: return await c.match(words, dry_run=True, last_token_complete=True, arglist=[])
        finally: c.exit_grammar()
    return sorted((str(t), t.helpstring) for t in LOOP.run_until_complete(go()).next_tokens if t)
check(helps([]), [("a", "first")])
check(helps(["a"]), [("b", "second"), ("c", "c")])
check(c.run_words(["a", "b"])[0], "success")
check(helps(["a"]), [("b", "second"), ("c", "c")])
check(helps([]), [("a", "first")])
''')

bug("b05-set-copy-actions", "C05",
    [(EL, "        return \"Set\" + '{' + \", \".join([e.__repr__(verbose=False) for e in self.value]) + '}'\n\n    def copy(self):\n        val = tuple([v.copy() for v in self._value])\n        cp = self.__class__(val)\n        for v in val:\n            v.parent = cp\n        self.copy_extras(cp)\n        return cp",
          "        return \"Set\" + '{' + \", \".join([e.__repr__(verbose=False) for e in self.value]) + '}'\n\n    def copy(self):\n        val = tuple([v.copy() for v in self._value])\n        cp = self.__class__(val)\n        for v in val:\n            v.parent = cp\n        return cp")],
    "an orderless set with an action of its own which is repeated at least twice",
    "the second and later repetitions of the set run without the action of the set",
    '''
c = Cli('root: ("a", "b") << call rec("set"); >>;')
check(c.run_words(["b", "a"]), ("success", [("set",)]))
c = Cli('root: (<< call rec("set"); >> "a", "b") * (1:3);')
check(c.run_words(["b", "a"])[1], [("set",)])
check(c.run_words(["b", "a", "a", "b"])[1], [("set",)] * 2)
check(c.run_words(["b", "a", "a", "b", "a", "b"])[1], [("set",)] * 3)
''')

bug("b06-stale-numbers", "C06",
    [(EL, "        self._children = {}\n        self.reset()\n", "        self._children = {}\n        self._numbered_vars = {}\n        self.reset()\n"),
     (EL, "        self._input_sequence = []\n        self._named_vars = {}\n        self._numbered_vars = {}\n        self._parents = []\n",
          "        self._input_sequence = []\n        self._named_vars = {}\n        self._parents = []\n")],
    "a second line in the same command loop which leaves out an element that the line before had",
    "$n of an element which is not in the line still holds the word of an earlier line",
    '''
c = Cli('root: "a" {"x"} "z" << call rec($2); >>;')
async def go():
    c.enter_grammar("root")
    for words in (["a", "x", "z"], ["a", "z"]):
        await c.match(words, last_token_complete=True, arglist=[])
LOOP.run_until_complete(go())
check(c.log[0], ("x",))
check(len(c.log), 2)
check(c.log[1] == ("x",), False)
''')

bug("b07-falsy-default", "C07",
    [(EL, "        if param.has_def_value:\n            param_map", "        if param.defvalue:\n            param_map")],
    "a grammar parameter whose default value is 0 or the empty string, and a reference which leaves it out",
    "the parameter is None instead of its default value",
    '''
c = Cli('sub[$p = 0, $q = "", $r = 5]: "s" << call rec($p, $q, $r); >>; root: sub;')
check(c.run_words(["s"]), ("success", [(0, "", 5)]))
''')

bug("b08-second-keyword-arg", "C07",
    [(EL, "                if arg.param_name == param:\n                    param_map[arg.param_name] = arg\n                    param_list.remove(param)",
          "                if arg.param_name == param:\n                    param_map[arg.param_name] = arg\n                    param_list.pop(0 if has_kwarg else param_list.index(param))")],
    "keyword arguments of a grammar reference given in another order than the parameters",
    "the parameter taken is not the one which is named, so a later one gets its default or an error is reported",
    '''
c = Cli('sub[$p, $q = 2, $r = 3]: "s" << call rec($p, $q, $r); >>; root: "k" sub[$p = 1, $q = 8] | "l" sub[$q = 7, $p = 1];')
check(c.run_words(["k", "s"]), ("success", [(1, 8, 3)]))
check(c.run_words(["l", "s"]), ("success", [(1, 7, 3)]))
''')

bug("b09-handler-defaults", "C08",
    [(CM, "                        grammar_name_line += \"        ${argname} = \\\"\\\";\\n\".format(argname=arg)",
          "                        if arg in hook.__doc__:\n                            grammar_name_line += \"        ${argname} = \\\"\\\";\\n\".format(argname=arg)")],
    "a handler with a parameter its grammar never assigns",
    "the parameter is None instead of the empty string",
    '''
class Sh(NessaidCmd):
    def do_go(self, word, extra):
        """
        "go" ("fast" << $word = $1; >> | "slow")
        """
        got.append((word, extra))
got = []
c = make(Sh)
for l in ("go fast", "go slow"): LOOP.run_until_complete(c.exec_line(l))
check(got, [("fast", ""), ("", "")])
''')

bug("b10-comment-in-continuation", "C13",
    [(CL, "                if await self.commented_line(self._effective_line):", "                if await self.commented_line(line):")],
    "a continuation whose last part starts with #",
    "the whole joined line is dropped as a comment",
    '''
got = []
class Sh(NessaidCmd):
    """ token W StringToken(); """
    def get_token_classes(self): return [T.StringToken]
    def do_go(self, word):
        """
        "go" W << $word = $2; >>
        """
        got.append(word)
        # the loop ends with the input
c = make(Sh)
session(c, ["go \\\\", "#x", "# go y", "go z"])
check(got, ["#x", "z"])
''')

bug("b11-continuation-blanks", "C13",
    [(CL, "            if line.rstrip().endswith(\"\\\\\"):", "            if line.endswith(\"\\\\\"):")],
    "a line continued by a backslash which is followed by blanks",
    "the line is not continued",
    '''
got = []
class Sh(NessaidCmd):
    def do_go(self):
        """
        "go" "on"
        """
        got.append("go on")
c = make(Sh)
session(c, ["go \\\\ ", "on", "go \\\\", "on"])
check(got, ["go on"] * 2)
''')

bug("b12-blank-file-line", "C14",
    [(CL, "        line = None if from_stdin else self.file_line\n        if line is not None:\n            if show_prompt_for_file_lines:\n                self.print(prompt, end=\"\")\n            self.print(line)\n            return line",
          "        line = None if from_stdin else self.file_line\n        if line:\n            if show_prompt_for_file_lines:\n                self.print(prompt, end=\"\")\n            self.print(line)\n            return line")],
    "a command file with a blank line in the middle",
    "the user is asked for a line in the middle of the file",
    '''
import tempfile
got = []
class Sh(NessaidCmd):
    def do_go(self):
        """
        "go"
        """
        got.append("go")
    def do_stop(self):
        """
        "stop"
        """
        got.append("stop")
with tempfile.NamedTemporaryFile("w", suffix=".cfg") as f:
    f.write("go\\n\\ngo\\n"); f.flush()
    c = make(Sh, filename=f.name)
    session(c, ["stop"])
check(got, ["go", "go", "stop"])
''')

bug("b13-answer-from-file-stripped", "C23",
    [(CL, "                lines = [l.rstrip() for l in fd.readlines()]", "                lines = [l.strip() for l in fd.readlines()]")],
    "a command file which answers a question with leading blanks",
    "the answer loses its leading blanks",
    '''
import tempfile
got = []
class Sh(NessaidCmd):
    async def do_go(self):
        """
        "go"
        """
        got.append(await self.input("? "))
with tempfile.NamedTemporaryFile("w", suffix=".cfg") as f:
    f.write("go\\n  two words  \\n go\\nx\\n"); f.flush()
    c = make(Sh, filename=f.name)
    session(c, [])
check(got, ["  two words", "x"])
''')

bug("b14-restart-after-exit", "C25",
    [(CL, "            await self.on_exit()\n            self._exit_loop = False\n", "            await self.on_exit()\n            self._exit_loop = not self._running\n")],
    "nothing but an exit",
    "",
    '''
check(1, 1)
''') if False else None

bug("b15-stale-child", "C16",
    [(CL, "                    input_tokens = [str(t) for t in tokens]\n                    self.child_cli = None\n                    match_output", "                    input_tokens = [str(t) for t in tokens]\n                    match_output")],
    "a child context whose start-up hook raises, followed by another command",
    "the next command enters the broken context again",
    '''
got = []
class Kid(NessaidCmd):
    async def preloop(self):
        got.append("kid starts")
        raise RuntimeError("broken")
    def do_x(self):
        """
        "x"
        """
class Sh(NessaidCmd):
    async def do_kid(self):
        """
        "kid"
        """
        await self.enter_context(Kid, prompt="kid> ")
    def do_go(self):
        """
        "go"
        """
        got.append("go")
c = make(Sh)
session(c, ["kid", "go", "go"])
check(got, ["kid starts", "go", "go"])
''')

bug("b16-completion-index", "C19",
    [(CL, "                            if line == self._current_line:\n                                idx = line.rindex(tok_input)", "                            if line == self._current_line:\n                                idx = line.index(tok_input)")],
    "a line in which the word being completed also occurs further left, and a second TAB",
    "nothing, or only the end of the completion, is inserted",
    '''
async def go(line):
    c = Cli('root: "tea" ("teapot" | "teabag") | "tea" "lemon";')
    shown = []
    class RL:
        def get_line_buffer(self): return line
        async def insert_text(self, t): shown.append(t)
        def play_bell(self): pass
    c._readline = RL()
    c.enter_grammar("root")
    await c.complete("", 0)
    await c.complete("", 0)
    return shown
check(LOOP.run_until_complete(go("tea t")), ["ea"])
check(LOOP.run_until_complete(go("tea te")), ["a"])
''')

bug("b17-add-in-place", "C21",
    [(IF, "                    r = r + arg\n", "                    r += arg\n")],
    "add() on a list which the action still holds in a variable",
    "add() changes the list it was given",
    '''
c = Cli('root: "a" << $l = list("x"); $m = add($l, list("y")); call rec($l, $m); >>;')
check(c.run_words(["a"])[1], [(["x"], ["x", "y"])])
''')

bug("b18-int-suggestions", "C11",
    [(TO, "        if min_num <= max_limit and num_len == max_len:\n            count += len(range(min_num, min(max_num, max_limit) + 1))",
          "        if min_num < max_limit and num_len == max_len:\n            count += len(range(min_num, min(max_num, max_limit) + 1))")],
    "an integer range whose upper limit is the typed number followed by zeros",
    "the number is treated as complete although the limit extends it; the limit is not offered",
    '''
c = Cli('token N RangedIntToken(1, 100); root: N << call rec($1); >>;')
async def comp(s):
    c._token_miss = c._token_hit = 0
    return await c.get_token("N").complete(s, cli=c)
check(LOOP.run_until_complete(comp("10")), (2, ["10", "100"]))
check(c.run_words(["100"])[1], [(100,)])
''')

bug("b19-quoted-tail", "C10",
    [(UT, "        parts = python_string.split(\"\\\\\")\n", "        parts = python_string.split(\"\\\\\") if not python_string.endswith(\"\\\\\") else [python_string]\n")],
    "a keyword or string which ends in a backslash",
    "the string is written with a single backslash before the closing quote and never matches again",
    '''
from nessaid_cli.utils import convert_to_cli_string, convert_to_python_string
from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer
for s in ("a b", "a\\\\b c", "a b\\\\", "\\\\"):
    t = NessaidCliTokenizer().parse(str(convert_to_cli_string(s)))
    check(len(t), 1, s)
    check(convert_to_python_string(t[0]), s, s)
''')

bug("b20-null-escape", "C09",
    [(TK, "    def t_QUOTED_STR(self, t):\n        r'(\")(([^\"\\n\\r\\t\\\\\\0])|((\\\\\\\\)|(\\\\)(0|n|r|t|b|v|a|\")))*(\")'",
          "    def t_QUOTED_STR(self, t):\n        r'(\")(([^\"\\n\\r\\t\\\\\\0])|((\\\\\\\\)|(\\\\)(0|n|r|t|b|a|\")))*(\")'")],
    "a closed quoted string with the escape \\\\v",
    "the string is split at the escape",
    '''
from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer
def words(s):
    try: return [str(t) for t in NessaidCliTokenizer().parse(s)]
    except Exception as e: return type(e).__name__
for e in "0nrtbva":
    check(words('"a\\\\%sb" c' % e), ['"a\\\\%sb"' % e, "c"], e)
''')
BUGS = [b for b in BUGS if b["id"] != "b14-restart-after-exit"]
