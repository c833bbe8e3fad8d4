"""Run TLC on a specification of /verif/spec and collect what it printed."""
import json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CTL = {"nul": "\0", "bs": "\b", "vt": "\x0b", "bel": "\x07"}


LIGHT = {"Cli", "Session", "Editor", "History"}


class TlcError(Exception):
    pass


class SpecViolation(Exception):
    """TLC found an invariant of the specification itself broken."""


class Result:
    def __init__(self):
        self.records, self.states, self.transitions, self.depth, self.actions = [], 0, 0, 0, {}
        self.output = ""


def unprint(s):
    """the text of a TLA+ string literal as PrintT shows it"""
    out, i = [], 1
    while i < len(s) - 1:
        c = s[i]
        if c == "\\" and i + 1 < len(s) - 1:
            n = s[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(n, n))
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


def run(module, corpus=None, env=None, cfg=None, workers=4, heap="5g", timeout=800, extra=(), coverage=False,
        simulate=None, depth=None, seed=None, light=None):
    # compiling the checker's own code to the last costs more than it saves in a short run
    if light is None:
        light = os.environ.get("VERIF_TIER", "quick") == "quick" and module in LIGHT
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        e = dict(os.environ)
        if corpus is not None:
            path = os.path.join(tmp, "corpus.json")
            with open(path, "w") as fd:
                json.dump(corpus, fd)
            e["CORPUS"] = path
        e.update(env or {})
        jit = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if light else ["-XX:+UseParallelGC"]
        cmd = ["java"] + jit + ["-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "states"), "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            cmd += ["-depth", str(depth or 20), "-seed", str(seed if seed is not None else 1)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC did not finish in %ds" % timeout)
        text = p.stdout.decode("utf-8", "replace")
        r = Result()
        r.output = text
        other = []
        for ln in text.split("\n"):
            if ln.startswith('"@@'):
                r.records.append(json.loads(unprint(ln.rstrip("\r"))[2:]))
            else:
                other.append(ln)
        rest = "\n".join(other)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", rest)
        if m:
            r.transitions, r.states = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", rest)
        if m and not r.states:
            r.transitions = r.states = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", rest)
        if m:
            r.depth = int(m.group(1))
        for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)", rest):
            r.actions[m.group(1)] = int(m.group(4))
        if p.returncode != 0:
            tail = "\n".join(l for l in other if "Parsing" not in l and "Semantic" not in l and "Linting" not in l)
            if "is violated" in rest and "Error: Invariant" in rest:
                raise SpecViolation(tail[-6000:])
            k = tail.find("Error:")
            raise TlcError("TLC exit %d\n%s" % (p.returncode, tail[max(0, k):][:4000]))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
