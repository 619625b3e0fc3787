"""Building the harness, running it under supervision, and running TLC over what it did."""
import json, os, re, resource, select, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
RT = os.path.join(VERIF, "target", "debug", "rt")
RTN = os.path.join(VERIF, "target", "debug", "rtn")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    for name, value in re.findall(r"(\w+)=(\S+)", open(os.path.join(VERIF, "env.sh")).read()):
        e[name] = value
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target")
    return e


def build(crate="harness"):
    """The harness, or what calls the binding, from the working tree of /repo."""
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, crate),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError(crate + " does not build:\n" + p.stdout[-4000:])


# -- the implementation ---------------------------------------------------------------------
class Impl:
    """One harness process.  A request that is not answered in time, or that ends the process, is
    answered with {"died": why} and a new process is started."""

    def __init__(self, timeout=60, memory=6 << 30, program=RT):
        self.program = program
        self.timeout = timeout
        self.memory = memory
        self.p = None

    def start(self):
        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (self.memory, self.memory))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.program], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  preexec_fn=limits)
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, req):
        """the answer as a line of text, or None and why there is none"""
        if self.p is None:
            self.start()
        data = (json.dumps(req, ensure_ascii=False) + "\n").encode("utf-8", "surrogatepass")
        fdin, fdout = self.p.stdin.fileno(), self.p.stdout.fileno()
        end = time.monotonic() + self.timeout
        sent = 0
        os.set_blocking(fdin, False)
        try:
            while True:
                if b"\n" in self.buf:
                    line, self.buf = self.buf.split(b"\n", 1)
                    return line.decode("utf-8"), None
                left = end - time.monotonic()
                if left <= 0:
                    self.stop()
                    return None, "no answer within %d s" % self.timeout
                r, w, _ = select.select([fdout], [fdin] if sent < len(data) else [], [], left)
                if w:
                    try:
                        sent += os.write(fdin, data[sent:sent + 65536])
                    except BlockingIOError:
                        pass
                if r:
                    chunk = os.read(fdout, 1 << 20)
                    if not chunk:
                        raise BrokenPipeError
                    self.buf += chunk
        except BrokenPipeError:
            code = self.p.wait()
            self.stop()
            return None, "the process ended with status %d" % code


# -- TLC ------------------------------------------------------------------------------------
JAVA = ["java", "-XX:+UseSerialGC", "-Xmx3g", "-Xss1g", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
        "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC"]


def tlc(module, cfg, cwd, args=(), timeout=800, java=JAVA):
    """runs TLC on the specification's module in cwd, where cfg is put; gives (ok, output)"""
    name = os.path.join(cwd, module + ".cfg")
    with open(name, "w") as f:
        f.write(cfg)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            dst = os.path.join(cwd, f)
            if not os.path.exists(dst):
                os.symlink(os.path.join(SPEC, f), dst)
    try:
        p = subprocess.run(java + ["-metadir", os.path.join(cwd, "states"), "-noGenerateSpecTE", "-config", module + ".cfg"]
                           + list(args) + [module + ".tla"], cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC took more than %d s" % timeout)
    out = p.stdout.decode("utf-8", "replace")
    return p.returncode == 0 and "No error has been found" in out, out


def counts(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def unquote(s):
    """a TLA+ string literal as TLC prints it"""
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), s)


def prints(out, tag):
    """the JSON values printed as <<"tag", json>>"""
    found = []
    for m in re.finditer(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % tag, out, re.S):
        found.append(json.loads(unquote(m.group(1)), strict=False))
    return found


CHECK = """CONSTANT File = "%s"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION AllChecked
"""


REPLAY = """CONSTANTS
  File = "%s"
  Threads = {1, 2, 3, 4, 5, 6, 7, 8}
  Handles = {0, 1, 2}
  Sources = {1, 2, 3, 4, 5, 6, 7, 8}
SPECIFICATION RSpec
"""


def replay(lines, cwd, timeout=800):
    """checks recorded histories with module Replay"""
    with open(os.path.join(cwd, "records.json"), "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    ok, out = tlc("Replay", REPLAY % "records.json", cwd, timeout=timeout)
    if not ok:
        raise ToolError("TLC: " + out[-3000:])
    g, d = counts(out)
    return [(b["id"], b["why"]) for b in prints(out, "BAD")], g, d


HISTORIES = """CONSTANTS
  Threads = {%s}
  Handles = {%s}
  Sources = {%s}
  Accepted = {%s}
  FirstOps = {%s}
  Depth = %d
  Focused = %s
SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
INVARIANT KeysAreLocal
INVARIANT Printed
PROPERTY Isolated
PROPERTY ReadOnly
"""


def histories(cwd, threads, handles, sources, accepted, first, depth, simulate=None, seed=1):
    """behaviours of module System: lists of (thread, operation, handle, source)"""
    os.makedirs(cwd, exist_ok=True)
    cfg = HISTORIES % (", ".join(map(str, threads)), ", ".join(map(str, handles)), ", ".join(map(str, sources)),
                       ", ".join(map(str, accepted)), ", ".join('"%s"' % f for f in first), depth, "TRUE" if simulate else "FALSE")
    if simulate:
        cfg = cfg.replace("PROPERTY Isolated\nPROPERTY ReadOnly\n", "")
    args = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 2), "-seed", str(seed)] if simulate else []
    ok, out = tlc("Histories", cfg, cwd, args)
    found = prints(out, "H")
    if not found or (not ok and not simulate) or "Error:" in out:
        raise ToolError("TLC: " + out[-3000:])
    return found, counts(out)


# -- derivations ----------------------------------------------------------------------------
INFIX = ["=", "+=", "+", "-", "/", "in", "**", "||", "==", "<", "instanceof"]

BUILD = """CONSTANTS
  Fuel = %d
  Most = %d
  Infix = {%s}
  Start = "s"
  Greedy = %s
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Relations
"""


def derive(cwd, name, fuel, most, infix, emit, simulate=None, seed=1):
    """explores module Build and keeps the programs it derives; what its invariants say has to hold"""
    cwd = os.path.join(cwd, name)
    os.makedirs(cwd)
    cfg = BUILD % (fuel, most, ", ".join('"%s"' % o for o in infix), "TRUE" if simulate else "FALSE")
    if emit:
        cfg += "INVARIANT Emit\n"
    args = ["-workers", "8"]
    if simulate:
        args += ["-simulate", "num=%d" % simulate, "-depth", "400", "-seed", str(seed)]
    java = [x for x in JAVA if x != "-Xss1g" and x != "-XX:+UseSerialGC"]
    java[1:1] = ["-XX:+UseParallelGC", "-Xss256m"]
    ok, out = tlc("Build", cfg, cwd, args, timeout=600, java=java)
    if "Error:" in out or '<<"WRONG"' in out or (not ok and not simulate):
        raise ToolError("TLC: " + out[-3000:])
    programs = sorted(set(tuple(p) for p in prints(out, "P")))
    with open(os.path.join(cwd, "programs.json"), "w") as f:
        json.dump(programs, f)
    m = re.findall(r"number of states generated: (\d+)", out)
    g, d = (int(m[-1]), len(programs)) if simulate and m else counts(out)
    return {"module": "Build", "name": name, "fuel": fuel, "generated": g, "distinct": d, "programs": len(programs)}


def derived(cwd):
    found = []
    for name in ("exhaustive", "random"):
        found += json.load(open(os.path.join(cwd, name, "programs.json")))
    return found


# -- programs that call the binding ---------------------------------------------------------
SESSIONS = """CONSTANTS
  Calls = %d
  Most = %d
  Offered = {%s}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Relations
INVARIANT Emit
PROPERTY Ends
"""


def sessions(cwd, name, calls, most, offered):
    """explores module Sessions and keeps the programs"""
    cwd = os.path.join(cwd, name)
    os.makedirs(cwd)
    ok, out = tlc("Sessions", SESSIONS % (calls, most, ", ".join('"%s"' % o for o in offered)), cwd)
    if not ok:
        raise ToolError("TLC: " + out[-3000:])
    found = sorted(prints(out, "C"))
    with open(os.path.join(cwd, "sessions.json"), "w") as f:
        json.dump(found, f)
    g, d = counts(out)
    return {"module": "Sessions", "name": name, "calls": calls, "generated": g, "distinct": d, "programs": len(found)}


# -- the lexer as a machine -----------------------------------------------------------------
SCANNER = """CONSTANT Longest = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Ordered
INVARIANT Agrees
INVARIANT Progress
PROPERTY Final
"""

# groups of symbols, with the lengths of the texts: replayed when quick and when thorough, explored when thorough
SYMBOLS = {
    "all": ("a0'`$\\{}/*\n e.+-=!;é☃1<[x]g\"", 3, 3, 4),
    "numbers": ("01e.+xba_", 5, 5, 6),
    "quotes": ("`${}\\'\"a", 5, 5, 6),
    "slashes": ("/*=[]\\\na", 5, 6, 6),
    "operators": ("<>=!&|+-*^", 4, 4, 5),
    "words": ("doinfé1_", 5, 5, 6),
    "dots": (". /*\na1é", 5, 6, 6),
}


def scan(cwd, name, longest, emit, live=False):
    """explores module Scanner over a group of symbols and keeps the texts with their decisions"""
    cwd = os.path.join(cwd, "scan-" + name + ("" if emit else "-longer"))
    os.makedirs(cwd)
    with open(os.path.join(cwd, "alphabet.json"), "w") as f:
        json.dump([{"b": list(c.encode()), "s": c.encode().decode("latin-1")} for c in SYMBOLS[name][0]], f)
    cfg = SCANNER % longest + ("INVARIANT Emit\n" if emit else "") + ("PROPERTY Terminates\n" if live else "")
    java = [x for x in JAVA if x != "-Xss1g" and x != "-XX:+UseSerialGC"]
    java[1:1] = ["-XX:+UseParallelGC", "-Xss64m"]
    ok, out = tlc("Scanner", cfg, cwd, ["-workers", "8"], timeout=600, java=java)
    if not ok or '<<"WRONG"' in out:
        raise ToolError("TLC: " + out[-3000:])
    texts = []
    if emit:
        texts = sorted((bytes(t["b"]).decode(), t["d"]) for t in prints(out, "T"))
        with open(os.path.join(cwd, "texts.json"), "w") as f:
            json.dump(texts, f)
    g, d = counts(out)
    return {"module": "Scanner", "name": name, "longest": longest, "generated": g, "distinct": d, "texts": len(texts)}


def scanned(cwd):
    for name in SYMBOLS:
        yield from json.load(open(os.path.join(cwd, "scan-" + name, "texts.json")))


def judge(lines, cwd, timeout=800):
    """Checks records, given as lines of JSON, with module Check: (complaints, generated, distinct)
    where complaints are (index of the record, reasons)."""
    complaints = []
    generated = distinct = 0
    base = 0
    while base < len(lines):
        name = os.path.join(cwd, "records.json")
        with open(name, "w", encoding="utf-8") as f:
            f.write("\n".join(lines[base:]) + "\n")
        ok, out = tlc("Check", CHECK % "records.json", cwd, timeout=timeout)
        g, d = counts(out)
        for b in prints(out, "BAD"):
            complaints.append((b["id"], b["why"]))
        if ok:
            generated += g
            distinct += d
            break
        # TLC stopped at a record that the specification can make no sense of
        m = re.findall(r"^/?\\?\s*/\\ l = (\d+)", out, re.M)
        if not m or "OutOfMemory" in out or "StackOverflow" in out or "ndDeserialize" in out or "Parsing or semantic analysis failed" in out:
            raise ToolError("TLC: " + out[-3000:])
        at = int(m[-1]) - 1
        rec = json.loads(lines[base + at])
        why = re.findall(r"^Error: .*", out, re.M)
        complaints.append((rec["id"], ["no value the specification knows: " + " ".join(why)[:600]]))
        generated += at + 1
        distinct += at + 1
        base += at + 1
        if len(complaints) > 20:
            break
    return complaints, generated, distinct


# -- records --------------------------------------------------------------------------------
def source(src):
    b = src.encode("utf-8")
    return {"b": list(b), "s": b.decode("latin-1"), "n": len(b)}


def double(v):
    """m and x of module Doubles"""
    import math
    if v == 0:
        return 0, -1074
    m, x = math.frexp(abs(v))
    m, x = int(m * 2 ** 53), x - 53
    return (m >> (-1074 - x), -1074) if x < -1074 else (m, x)


def number(text):
    import decimal
    try:
        d = decimal.Decimal(text)
    except decimal.InvalidOperation:
        return {"j": "bad", "v": text, "f": [], "c": []}
    sign, digits, exp = d.as_tuple()
    digits = "".join(map(str, digits)).lstrip("0")
    stripped = digits.rstrip("0")
    exp += len(digits) - len(stripped)
    if not stripped:
        stripped, exp = "0", 0
    try:
        m, x = double(float(text))
    except (OverflowError, ValueError):
        return {"j": "bad", "v": text, "f": [], "c": []}
    return {"j": "num", "v": ("-" if sign else "") + stripped, "f": [str(exp), str(m), str(x)], "c": []}


# -- trees too deep for the JSON reader of TLC ---------------------------------------------------
LIMIT = 250


def depth(line):
    """the nesting depth of JSON text"""
    d = most = 0
    for b in re.sub(r'"(?:[^"\\]|\\.)*"|[^][{}]', "", line):
        if b in "{[":
            d += 1
            if d > most:
                most = d
        else:
            d -= 1
    return most


def nested(v):
    most, todo = 0, [(v, 1)]
    while todo:
        v, d = todo.pop()
        most = max(most, d)
        for c in v["c"]:
            todo.append((c, d + 2))
    return most


def flat(v):
    """a record with its deep trees as lists of nodes, children first"""
    if isinstance(v, list):
        return [flat(x) for x in v]
    if not isinstance(v, dict):
        return v
    if "k" in v and "c" in v and "t" in v and nested(v) > 200:
        nodes, todo = [], [v]
        while todo:
            x = todo.pop()
            nodes.append({"k": x["k"], "t": x["t"], "s": x["s"], "e": x["e"], "n": len(x["c"])})
            todo.extend(x["c"])
        return {"k": "Flat", "t": "", "s": 0, "e": 0, "nodes": nodes[::-1]}
    return {k: flat(x) for k, x in v.items()}


class Num(str):
    pass


def document(text):
    """JSON text as a value of module Estree"""
    def conv(v):
        if v is None:
            return {"j": "null", "v": "", "f": [], "c": []}
        if isinstance(v, bool):
            return {"j": "bool", "v": "true" if v else "false", "f": [], "c": []}
        if isinstance(v, Num):
            return number(v)
        if isinstance(v, str):
            return {"j": "str", "v": v.encode("utf-8", "surrogatepass").decode("latin-1"), "f": [], "c": []}
        if isinstance(v, list):
            return {"j": "arr", "v": "", "f": [], "c": [conv(x) for x in v]}
        return {"j": "obj", "v": "", "f": [k for k, _ in v[0]], "c": [conv(x) for _, x in v[0]]}
    try:
        v = json.loads(text, parse_float=Num, parse_int=Num, parse_constant=Num, object_pairs_hook=lambda ps: (ps,))
    except ValueError as e:
        return {"j": "bad", "v": str(e), "f": [], "c": []}
    return conv(v)
