"""Writes properties.jsonl and MANIFEST.json from one table.
   run: python3 tools/props.py   (needs nothing but the standard library)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))

PROPS = []
EL, IF, CO, TO = "nessaid_cli/elements.py", "nessaid_cli/interface.py", "nessaid_cli/compiler.py", "nessaid_cli/tokens.py"
CL, CM, UT, TK = "nessaid_cli/cli.py", "nessaid_cli/cmd.py", "nessaid_cli/utils.py", "nessaid_cli/tokenizer/tokenizer.py"
BO, BP, LY = ("nessaid_cli/binding_parser/binding_objects.py", "nessaid_cli/binding_parser/binding_text_parser.py",
              "nessaid_cli/lex_yacc_common.py")


def P(id, title, statement, over, text, tests, mech, spec):
    PROPS.append((dict(id=id, title=title, statement=statement,
                       quantifier=dict(over=over, text=text), why_tests_cant=tests,
                       anchors=dict(files=sorted({m[1].split(":")[0] for m in mech}),
                                    mechanism=[dict(name=n, where=w) for n, w in mech])), spec))


P("C01", "A line succeeds exactly when the grammar derives it",
  "A command line is executed successfully exactly when its words form a complete derivation of the active grammar that "
  "is unique after disambiguation; it is reported as partial when it is only a proper prefix of a derivation, as "
  "ambiguous when several derivations remain, and as a failure otherwise. This holds for every grammar built from "
  "sequences, alternatives, optional blocks, orderless sets, repetitions with bounds and named sub-grammars. No line "
  "makes the matcher raise an exception or run forever.",
  ["programs", "inputs"], "all grammars (nesting of every construct) and all lines over their words",
  "The tests run a handful of fixed grammars; how the constructs nest (an optional block at the end of a repetition inside "
  "a set) decides correctness, and there are unboundedly many nestings and lines.",
  [("first/next/derivation walk of each grammar element", EL + ":InputElement subclasses"),
   ("line matching loop and verdict", IF + ":CliInterface.match"),
   ("telling derivations apart", IF + ":fix_sequences"),
   ("grammar tree construction", CO)], "Grammar.tla, Matching.tla, Cli.tla")
P("C02", "Abbreviations and overlapping tokens are resolved by one fixed rule",
  "A word selects a keyword when it equals it or is an abbreviation (prefix) of it; when several complete readings of a "
  "line remain, they are compared word by word from the left, a reading that has the word exactly beating one that only "
  "abbreviates, and a keyword or other enumerable token beating free text. If this leaves one reading it is the one "
  "executed, otherwise the line is reported as ambiguous and nothing is executed. A word that abbreviates several "
  "options of one choice token and has no value of its own is refused.",
  ["programs", "inputs"], "all grammars with overlapping keywords, choice tokens, numbers and strings, and all lines",
  "Tests cover single abbreviations; the rule quantifies over every pair of readings of every line.",
  [("disambiguation of readings", IF + ":fix_sequences"), ("match/value per candidate", IF + ":CliInterface.match"),
   ("keyword matching", TO + ":CliToken.match")], "Matching.tla (Prefer, Extend), Cli.tla")
P("C03", "Completion offers exactly the words that can continue the line",
  "After a complete word, the offers are exactly the keywords and token hints that can legally follow the line under the "
  "grammar, plus the end-of-line marker exactly when the line could be executed as it stands. While a word is being typed "
  "the offers are exactly the completions of that word at that place. Where the grammar attaches a help text to a token, "
  "it is reported with that token.",
  ["programs", "inputs"], "all grammars and all prefixes of all lines",
  "Tests check no completion list beyond a few lines; soundness and completeness of offers quantify over every prefix.",
  [("next choices", IF + ":CliInterface.match"), ("suggestion building", IF + ":ParsingResult.set_next_tokens"),
   ("token completion", TO + ":CliToken.complete")], "Matching.tla (OffersAfter, OffersFor)")
P("C04", "Nothing is executed unless the whole line is accepted",
  "A line that is partial, ambiguous or a failure runs no grammar action and no handler, however much of it matched. "
  "Asking for completions or help never runs an action, even when the line is complete.",
  ["programs", "inputs"], "all grammars with actions, all lines that are not accepted and all completion requests",
  "Tests never look at the actions of rejected lines; a stray action depends on which prefix was rejected where.",
  [("execution only after the verdict", IF + ":CliInterface.match"), ("dry run", IF + ":CliInterface.dry_run / match")],
  "Cli.tla (NoSilentAction, Record)")
P("C05", "Actions run exactly once, in grammar order, per matched element",
  "Executing an accepted line runs the actions in front of an element when it is entered and the ones behind it as soon "
  "as it is left, inner elements before the elements around them, once for each time the element is matched (also for "
  "every round of a repetition and every member of an orderless set). Actions of parts that were not taken, or of "
  "optional parts that were skipped, do not run.",
  ["programs", "inputs"], "all grammars with actions and all accepted lines",
  "Exactly-once under repetition, re-entry and nesting needs all derivations; tests cover a few straight sequences.",
  [("enter/exit of elements", IF + ":execute_success_sequence"), ("binding execution", EL + ":execute_binding"),
   ("attachment of actions", CO)], "Exec.tla")
P("C06", "Positional values $1..$n are the values matched by the elements",
  "In an action, $n is the value of the n-th element of the sequence it belongs to: the value of the token matched there "
  "(a string for keywords and string tokens, a number for number tokens, and so on), with $1 for a single element, an "
  "alternative or a repetition's latest round, and the position of the member inside an orderless set.",
  ["programs", "inputs"], "all grammars with actions and all accepted lines",
  "The value depends on the whole nesting around the action and on re-entry in repetitions.",
  [("element values", EL), ("positional lookup", IF + ":execute_success_sequence / binding evaluation")], "Exec.tla")
P("C07", "Named variables follow lexical scope and by-reference parameters",
  "A named variable assigned in an action is seen by later actions of the same grammar block and nowhere else; an "
  "assignment copies the value. Arguments of a named sub-grammar are bound to its parameters (by position or by name, "
  "missing ones undefined), a variable passed as argument receives what the sub-grammar assigned to the parameter, and "
  "the caller's argument list receives the final values of the root grammar's parameters.",
  ["programs", "inputs"], "all grammars with parameters and assignments and all accepted lines",
  "Aliasing and scope errors need particular combinations of nesting, repetition and argument passing.",
  [("variable lookup and scopes", EL), ("argument passing", IF + ":execute_success_sequence"),
   ("assignment", BO)], "Exec.tla")
P("C08", "A command line calls the handler whose grammar derives it, once",
  "For a command class, an accepted line calls exactly the handler whose docstring grammar derives it, exactly once, with "
  "each parameter holding the value its grammar assigned (or the empty string if it assigned none). Lines that are not "
  "accepted call no handler.",
  ["programs", "inputs"], "all command classes (sets of handlers with grammars) and all lines",
  "Tests drive one fixed class; the choice of handler depends on all the grammars together.",
  [("grammar generation from handlers", CM + ":NessaidCmd.__init__"), ("handler call", IF + ":get_binding / call")],
  "Cmd corpus over Cli.tla / Exec.tla")
P("C09", "Splitting a line into words follows the quoting rules",
  "For every line, the words are the maximal runs of characters other than blanks, tabs, quotes, backslashes and newlines, "
  "and the quoted strings with their escape sequences; a quoted string left open at the end is kept as an incomplete "
  "word; blanks separate words and nothing else is lost or invented. A line with a backslash or newline outside "
  "quotes is rejected as a whole.",
  ["inputs"], "all lines over an alphabet of letters, blanks, tabs, quotes, backslashes, escapes and newlines",
  "Tests check a dozen lines; quoting errors show at particular combinations of escapes, quotes and line ends.",
  [("line tokenizer", TK), ("splitting for completion", CL + ":NessaidCli.tokenize")], "Lexing.tla")
P("C10", "Quoting a string and reading it back gives the same string",
  "For every string which does not itself begin or end with a quote, writing it as a command-line word (quoted and escaped when needed) yields exactly one word, and "
  "reading that word back gives the original string. A keyword or choice offered by completion can therefore be typed "
  "back and is matched by the token it came from, and string tokens deliver the unquoted text.",
  ["inputs"], "all strings over an alphabet with quotes, backslashes, blanks, control characters",
  "The test of the helpers uses three strings.",
  [("conversions", UT), ("string values of tokens", TO)], "RoundTrip.tla")
P("C11", "Integer range tokens accept exactly the integers of their range",
  "An integer range token accepts a typed word exactly when it is a decimal "
  "integer inside the declared range and its value is that number; it keeps a word open exactly when "
  "it can still be continued to a number in range, and offers exactly those numbers when they are no more than its suggestion limit.",
  ["inputs", "configurations"], "all ranges (negative, around zero, one element, wide) and all words typed digit by digit",
  "The tests use one range.", [("range tokens", TO + ":RangedIntToken")], "TokenTypes.tla, Tokens.tla")
P("C12", "String, decimal, boolean and choice tokens accept exactly their language",
  "A bounded string token accepts exactly the words whose length lies in its bounds, a decimal token exactly the decimal "
  "numbers in its range, a boolean token exactly its true and false words and a choice token exactly its alternatives "
  "(or their unique abbreviations); the value delivered is the text, number, truth value or full alternative.",
  ["inputs", "configurations"], "all token declarations in bounds and all words typed character by character",
  "The tests use one declaration of some of them and none of others.",
  [("token classes", TO)], "TokenTypes.tla, Tokens.tla")
P("C13", "Continued, blank and comment lines are handled as documented",
  "In a session a line ending in a backslash is joined with the next ones into one command, a line whose first visible "
  "character is # is ignored, and a blank line does nothing; each other entered line is executed exactly once, in the "
  "order entered. An interrupt while a line is being entered discards nothing that was executed and does not end the session.",
  ["histories"], "all sequences of entered lines with continuations, comments, blanks and interrupts",
  "No test runs a session.", [("session loop", CL + ":NessaidCli.cmdloop"), ("input", CL + ":get_cli_input")], "Session.tla")
P("C14", "Command files run to the end, in order, innermost first",
  "Every line of a command file given to a session is executed exactly once and in order before the user is asked for "
  "input; a file added by a command is executed completely before the rest of the file that added it. Unreadable and "
  "empty files are skipped without disturbing the others.",
  ["histories", "fault_sequences"], "all trees of command files, including empty and missing ones",
  "No test runs a command file.", [("file stack", CL + ":add_file_to_execute / get_cli_input")], "Session.tla")
P("C15", "Entering and leaving command contexts is well nested",
  "A context entered by a command reads the following lines until it is left, then the parent continues with the next "
  "line; exit hooks run exactly once per entry. When a context is set up to match its parent's grammar, a line the context "
  "refuses and the parent can start is executed once, in the parent, after leaving the context.",
  ["histories"], "all sequences of lines over nested contexts with and without parent matching",
  "No test enters a context.", [("context loop", CM + ":enter_context / _match"), ("hand-over", CL + ":cmdloop")], "Session.tla")
P("C16", "A failing action or handler does not break the session",
  "When an action or handler raises, the error is reported, the remaining actions of the line run, and the following lines "
  "behave exactly as if the failure had not happened. A failing hook around the loop or a token class that raises does "
  "not corrupt later lines either.",
  ["fault_sequences", "histories"], "all placements of raising actions in grammars and sessions",
  "No test makes an action fail.", [("binding calls", IF), ("line execution", CL + ":exec_line")], "Exec.tla (faults), Session.tla")
P("C17", "The outcome of a line does not depend on earlier lines",
  "Executing or completing a line on an instance that has processed any other lines and completion requests before gives "
  "the same verdict, values, actions and offers as on a fresh instance of the same grammar. In particular the internal "
  "caches never change a result, however small they are, and neither does another instance over the same grammar, even one "
  "that executes at the same time.",
  ["histories", "configurations"], "all sequences of lines and completion requests, all cache sizes",
  "Tests use a new line on one instance each time and never compare with a fresh one.",
  [("caches", IF + ":get_token_value / convert string caches"), ("state reset", IF + ":match")], "History.tla")
P("C18", "Programmatic execution reports success as 0 and passes arguments intact",
  "Executing a line or an argument list programmatically returns 0 exactly when the line was accepted and executed, and a "
  "non-zero status otherwise. Each argument is matched as one word whose text is the argument, whatever blanks, "
  "quotes or backslashes it contains; blank arguments are ignored.",
  ["inputs"], "all argument lists over an alphabet with blanks, quotes and backslashes, all command classes",
  "Tests do not use argument lists with special characters.",
  [("argument execution", CM + ":exec_args / exec_line"), ("status", CL + ":exec_line")], "Args.tla")
P("C19", "Completing with TAB only inserts text that was forced",
  "Pressing TAB never changes or removes what was typed: it either lists the ways to go on, or appends exactly the longest text "
  "that everything the word being typed can become has in common (the only possible next word, when none is being typed), and a "
  "separating blank only when the word is complete. Where free text is possible nothing is appended, and a line that could be "
  "continued to a derivable one still can be.",
  ["inputs", "histories"], "all grammars and all sequences of typing, erasing, moving the cursor and pressing TAB",
  "No test drives the editor; what TAB does depends on the keys pressed before it and on quoting.",
  [("completion in the editor", CL + ":complete"), ("forced text", IF + ":ParsingResult.set_next_tokens")], "Editor.tla")
P("C20", "Grammar compilation accepts the documented language and nothing malformed",
  "Every well-formed grammar text whose names are declared before they are used compiles, whatever its layout and comments, "
  "to the language, actions and completions its symbols describe. Malformed text (in rules, actions, parameter, argument and "
  "token lists), duplicate definitions, wrong argument lists for sub-grammars and impossible repetition counts are rejected "
  "with an error rather than compiled to something else.",
  ["programs"], "all grammar texts generated from the specification, in all layouts, and all single faults in them",
  "Tests compile a few fixed texts.", [("grammar parser", CO), ("lexer", LY), ("action parser", BP)], "Syntax.tla, SyntaxMC.tla")
P("C21", "Built-in functions in actions compute what is documented",
  "The functions available inside actions (list, set, dict, append, update, inc, dec, add, print) return "
  "the documented value and change exactly the object they are documented to change, for every combination of argument "
  "values and nesting of calls.",
  ["programs", "inputs"], "all nestings of the inline functions over values of all kinds",
  "Tests use three of them on fixed values.", [("inline functions", IF), ("evaluation", BO)], "Exec.tla (Fns)")
P("C22", "A token class sees the values matched before its word",
  "While a word is matched, completed or evaluated, a custom token can ask for the values of the words matched before it in "
  "the reading under consideration, and gets exactly those, in order.",
  ["programs", "inputs"], "all grammars with context-dependent tokens and all lines",
  "No test uses matched values.", [("matched values", IF + ":get_matched_values / match")], "Context.tla")
P("C23", "Input requested by a command reads exactly the next line of its source",
  "A command that asks for input gets exactly the next line of the command file being executed, or of the user when there "
  "is none, and that line is not executed as a command. Lines after it are executed as usual.",
  ["histories"], "all sessions mixing commands, input requests and files",
  "No test asks for input.", [("input", CL + ":input")], "Session.tla")
P("C24", "Path tokens complete and accept exactly what the file system holds",
  "A path token offers exactly the existing names that extend the typed path in its directory, and accepts a word exactly when it is "
  "a path of the requested kind at the time it is evaluated, also after the directory changed.",
  ["inputs", "histories"], "all small directory trees and all path words over their names, with changes in between",
  "No test uses path tokens.", [("path token", TO + ":PathToken")], "Paths.tla")
P("C25", "A session runs at most once at a time and can be restarted",
  "Starting a session that is running is refused with an error and does not disturb it; after a session has ended, "
  "for whatever reason, it can be started again and behaves like a new one. Ending a session from a command takes effect "
  "before the next line is read.",
  ["histories"], "all sequences of start, exit, interrupt and end of input",
  "No test runs a session.", [("run", CL + ":run"), ("loop exit", CL + ":exit_loop")], "Session.tla")

TRUST = ("Bounded: every state of the TLA+ model of the generated corpus is enumerated by TLC and replayed in the real code; "
         "trusts TLC, the harness's rendering of corpora and the corpus generator's breadth. ")


def main():
    import plan
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fd:
        for p, _ in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            fd.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, spec in PROPS:
        pid = p["id"]
        if pid in plan.CHECKS:
            checks.append(dict(property=pid, quick_cmd="checks/run %s quick" % pid, thorough_cmd="checks/run %s thorough" % pid,
                               technique="TLA+ specification (%s) model-checked with TLC; every behaviour replayed in the real code" % spec,
                               level="model_checking", level_note=TRUST + plan.CHECKS[pid].get("note", "")))
        else:
            na.append(dict(property=pid, reason="check not built yet"))
    m = dict(version=1, setup_cmd="checks/setup", hooks=dict(guard="NESSAID_VERIF", enable="no hooks are needed: the checks "
             "observe the code through its public classes", source_commits=[]), checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    print("claimed", len(checks), "not claimed", [x["property"] for x in na])


main()
