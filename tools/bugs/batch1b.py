from batch1 import *
BUGS.clear()
bug("b06-repeat-twice", "C06",
    [(IF, "            elif parent.repeat_count > 1:\n                position = 0", "            elif parent.repeat_count > 2:\n                position = 0")],
    "an element repeated exactly twice, with an action which uses $1",
    "the second repetition finds its word in $2 instead of $1",
    '''
c = Cli('token W StringToken(); root: (W << call rec($1); >>) * 3;')
check(c.run_words(["a", "b", "c"])[1], [("a",), ("b",), ("c",)])
c = Cli('token W StringToken(); root: (W << call rec($1); >>) * 2;')
check(c.run_words(["a", "b"])[1], [("a",), ("b",)])
''')
