"""What a demonstration needs: a grammar and lines against the package in the current directory."""
import asyncio, io, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
LOOP = asyncio.new_event_loop()
asyncio.set_event_loop(LOOP)
from nessaid_cli.compiler import compile_grammar
from nessaid_cli.cli import NessaidCli
from nessaid_cli.cmd import NessaidCmd
from nessaid_cli import tokens as T
from nessaid_cli.elements import EndOfInpuToken


class Cli(NessaidCli):
    """calls of rec(...) end up in self.log"""
    extra = []

    def __init__(self, grammar, **kw):
        self.log, self.out, self.err = [], io.StringIO(), io.StringIO()
        super().__init__(compile_grammar(grammar), loop=LOOP, stdin=io.StringIO(), stdout=self.out, stderr=self.err, **kw)

    def get_token_classes(self):
        return [T.StringToken, T.RangedIntToken, T.RangedStringToken, T.AlternativeStringsToken, T.BooleanToken,
                T.RangedDecimalToken, T.PathToken] + self.extra

    def rec(self, *a):
        self.log.append(a)
        return a[0] if a else None

    def run_words(self, words, root="root"):
        """-> (result, what was recorded)"""
        async def go():
            self.enter_grammar(root)
            try: return await self.match(list(words), last_token_complete=True, arglist=[])
            finally: self.exit_grammar()
        self.log = []
        r = LOOP.run_until_complete(go())
        return r.result, self.log

    def run_text(self, line, root="root"):
        async def go():
            self.enter_grammar(root)
            try: return await self.exec_line(line)
            finally: self.exit_grammar()
        self.log = []
        return LOOP.run_until_complete(go()), self.log

    def offers(self, words, complete=True, root="root"):
        async def go():
            self.enter_grammar(root)
            try: return await self.match(list(words), dry_run=True, last_token_complete=complete, arglist=[])
            finally: self.exit_grammar()
        r = LOOP.run_until_complete(go())
        return r.result, sorted("$" if t == EndOfInpuToken else str(t) for t in r.next_tokens)


class End(Exception):
    pass


def session(cmd, lines):
    """run the command loop of `cmd' with the given user lines; -> what was asked (prompts)"""
    from nessaid_readline import async_readline as arl
    lines, asked = list(lines), []

    async def rl(self, prompt="", *a, **k):
        asked.append(prompt)
        if not lines: raise End()
        return lines.pop(0)

    old = arl.NessaidAsyncReadline.readline, arl.NessaidAsyncReadline.input
    arl.NessaidAsyncReadline.readline = arl.NessaidAsyncReadline.input = rl
    try:
        LOOP.run_until_complete(asyncio.wait_for(cmd.cmdloop(), 60))
    except End:
        pass
    finally:
        arl.NessaidAsyncReadline.readline, arl.NessaidAsyncReadline.input = old
    return asked


def make(cls, **kw):
    out, err = io.StringIO(), io.StringIO()
    c = cls(loop=LOOP, prompt="> ", stdin=io.StringIO(), stdout=out, stderr=err, **kw)
    c.outf, c.errf = out, err
    return c


def check(got, want, what=""):
    if got != want:
        print("FAIL", what, "\n  got ", got, "\n  want", want)
        sys.exit(1)
