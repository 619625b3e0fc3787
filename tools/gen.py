"""Random programs of the accepted language, as token lists and as laid out texts.

What a text means is decided by the specification alone; nothing here is an oracle, so it does
not matter when a generated text happens not to be a program."""
import random, re

NAMES = ["a", "b", "c", "x", "y", "of", "as", "from", "get", "set", "async", "foo", "bar_1", "$", "_", "target",
         "constructor", "abcdefghijk", "é", "π2", "漢é", "𝒳", "aſ", "ifx", "newer", "in_", "do1", "thisx",
         "letter", "classes", "nul", "trues", "functio", "Undefined"]
NUMS = ["0", "1", "42", "1.5", ".5", "7.", "1e3", "1e+3", "2.5e-7", "0x1F", "0Xff", "0o17", "0O7", "00", "123456789",
        "10000000000", "0.25", "100.0", "5e0"]
BINS = ["0b1", "0B101", "0b0", "0b11111111"]
STRS = ['"a"', "'b'", '""', "''", '"it\'s"', "'say \"x\"'", r'"a\"b"', r"'a\'b'", r'"a\\"', '"é漢"', "'// no'", '"/* no */"',
        "'a;b'", '"`${x}"', "'\\\n'"]
REGEX = ["/a/", "/=a[/]/g", "/a/g", "/[/]/", r"/\//i", "/a[^\\]]*/gimuy", "/=/", "/x*/", "/(?:é)/u"]
KEYWORDS_AS_NAMES = ["break", "case", "catch", "class", "continue", "debugger", "default", "delete", "do", "else",
                     "export", "extends", "finally", "for", "function", "if", "import", "instanceof", "new", "return",
                     "super", "switch", "this", "throw", "try", "typeof", "void", "while", "with", "yield", "static",
                     "null", "true", "false", "undefined"]
ASSIGN = ["=", "+=", "-=", "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="]
BINARY = ["||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<", ">>",
          ">>>", "+", "-", "*", "/", "%", "**"]
PREFIX = ["++", "--", "!", "~", "typeof", "void", "delete", "+", "-"]

NL = "\n"     # a token that asks for a line break
NOBREAK = "\0"  # a token that forbids one


class Gen:
    def __init__(self, rng, names=None, regex=True, strings=None):
        self.r = rng
        self.names = names or NAMES
        self.strings = strings or STRS
        self.regex = regex

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def name(self):
        return self.pick(self.names)

    def count(self, big=0.04):
        r = self.r.random()
        if r < big:
            return self.r.choice([5, 6, 8, 9, 10, 12, 17])
        return self.r.choice([0, 1, 1, 1, 2, 2, 3])

    # -- expressions ------------------------------------------------------------------------
    def atom(self):
        r = self.r.random()
        if r < 0.5:
            return [self.name()]
        if r < 0.65:
            return [self.pick(NUMS)]
        if r < 0.69:
            return [self.pick(BINS)]
        if r < 0.78:
            return [self.pick(self.strings)]
        if r < 0.88:
            return [self.pick(["this", "null", "true", "false", "undefined"])]
        if r < 0.92 and self.regex:
            return [self.pick(REGEX)]
        if r < 0.95:
            return ["`" + self.pick(["", "a", "é$", "\\`", "a\nb", "{}", "$ {"]) + "`"]
        return [self.name()]

    def expr(self, d, level=0):
        """an expression; level: 0 anything but a bare sequence, -1 also a sequence, 1 operand"""
        g = self
        if d <= 0:
            return g.atom()
        r = g.r.random()
        if level == -1 and r < 0.08:
            out = g.expr(d - 1)
            for _ in range(g.count() + 1):
                out += [","] + g.expr(d - 1)
            return out
        r = g.r.random()
        if r < 0.14:
            return g.atom()
        if r < 0.32:
            return g.operand(d - 1) + [g.pick(BINARY)] + g.operand(d - 1)
        if r < 0.38:
            return g.target(d - 1) + [g.pick(ASSIGN)] + g.expr(d - 1)
        if r < 0.45:
            return [g.pick(PREFIX)] + g.operand(d - 1)
        if r < 0.49:
            return g.target(d - 1) + [NOBREAK, g.pick(["++", "--"])]
        if r < 0.53:
            return g.operand(d - 1) + ["?"] + g.expr(d - 1) + [":"] + g.expr(d - 1)
        if r < 0.60:
            return g.operand(d - 1) + [".", g.accessor()]
        if r < 0.64:
            return g.operand(d - 1) + ["["] + g.expr(d - 1, -1) + ["]"]
        if r < 0.71:
            return g.operand(d - 1) + ["("] + g.args(d - 1) + [")"]
        if r < 0.76:
            return ["new"] + g.operand(d - 1) + (["("] + g.args(d - 1) + [")"] if g.chance(0.6) else [])
        if r < 0.79:
            return g.template(d - 1)
        if r < 0.81:
            return g.operand(d - 1) + g.template(d - 1)
        if r < 0.85:
            return g.array(d - 1)
        if r < 0.90:
            return ["("] + g.object(d - 1) + [")"] if level == 2 else g.object(d - 1)
        if r < 0.94:
            return g.arrow(d - 1)
        if r < 0.96:
            return g.function(d - 1, g.chance(0.5))
        if r < 0.98:
            return g.klass(d - 1, g.chance(0.5))
        if r < 0.985:
            return ["new", ".", "target"]
        return ["("] + g.expr(d - 1, -1) + [")"]

    def operand(self, d):
        # mostly with the parentheses it may need
        r = self.r.random()
        if d <= 0 or r < 0.35:
            return self.atom()
        if r < 0.65:
            return ["("] + self.expr(d, -1) + [")"]
        return self.expr(d, 1)

    def target(self, d):
        r = self.r.random()
        if d <= 0 or r < 0.6:
            return [self.name()]
        if r < 0.8:
            return self.operand(d - 1) + [".", self.accessor()]
        if r < 0.9:
            return self.operand(d - 1) + ["["] + self.expr(d - 1, -1) + ["]"]
        if r < 0.95:
            return self.array(d - 1)
        return self.object(d - 1)

    def accessor(self):
        return self.pick(KEYWORDS_AS_NAMES) if self.chance(0.15) else self.name()

    def args(self, d):
        out = []
        n = self.count()
        for i in range(n):
            if i:
                out += [","]
            if self.chance(0.12):
                out += ["..."]
            out += self.expr(d)
        if n and self.chance(0.05):
            out += [","]
        return out

    def template(self, d):
        n = self.count()
        pieces = ["", "a", " b ", "é", "\\`", "\\${", "$", "{", "}", "x\ny", "//", "''"]
        out = ["`" + self.pick(pieces)]
        # the pieces of a template cannot be separated from their neighbours by layout
        for _ in range(n):
            out[-1] += "${"
            out += self.expr(d, -1)
            out += ["}" + self.pick(pieces)]
        out[-1] += "`"
        return out

    def array(self, d):
        out = ["["]
        n = self.count()
        for i in range(n):
            if i:
                out += [","]
            if self.chance(0.1):
                continue
            if self.chance(0.1):
                out += ["..."]
            out += self.expr(d)
        if self.chance(0.05):
            out += [","]
        return out + ["]"]

    def key(self, d):
        r = self.r.random()
        if r < 0.6:
            return [self.name()]
        if r < 0.7:
            return [self.pick(KEYWORDS_AS_NAMES)]
        if r < 0.78:
            return [self.pick(NUMS)]
        if r < 0.81:
            return [self.pick(BINS)]
        if r < 0.88:
            return [self.pick(self.strings)]
        return ["["] + self.expr(d, -1) + ["]"]

    def member_key(self, d):
        while True:
            k = self.key(d)
            if k[0][0] not in "\"'":
                return k

    def property(self, d):
        r = self.r.random()
        if r < 0.25:
            return [self.name()]
        if r < 0.7:
            return self.key(d) + [":"] + self.expr(d)
        if r < 0.9:
            return self.key(d) + self.method(d)
        return ["..."] + self.expr(d)

    def object(self, d):
        out = ["{"]
        n = self.count()
        for i in range(n):
            if i:
                out += [","]
            out += self.property(d)
        if n and self.chance(0.1):
            out += [","]
        return out + ["}"]

    def arrow(self, d):
        n = self.count()
        if n == 1 and self.chance(0.5):
            out = [self.name()]
        else:
            out = ["("]
            for i in range(n):
                if i:
                    out += [","]
                out += [self.name()]
                if self.chance(0.2):
                    out += ["="] + self.expr(d)
            out += [")"]
        out += ["=>"]
        r = self.r.random()
        if r < 0.4:
            return out + self.block(d)
        if r < 0.5:
            return out + ["("] + self.object(d) + [")"]
        if r < 0.6:
            return out + ["("] + self.expr(d, -1) + [")"]
        return out + self.expr(d, 2)

    def params(self, d):
        out = ["("]
        n = self.count()
        for i in range(n):
            if i:
                out += [","]
            if i == n - 1 and self.chance(0.15):
                out += ["...", self.name()]
                break
            out += self.pattern(d)
            if self.chance(0.2):
                out += ["="] + self.expr(d)
        return out + [")"]

    def method(self, d):
        return self.params(d) + self.block(d)

    def function(self, d, named):
        return ["function"] + (["*"] if self.chance(0.2) else []) + ([self.name()] if named else []) + self.method(d)

    def klass(self, d, named):
        out = ["class"] + ([self.name()] if named else [])
        if self.chance(0.4):
            out += ["extends"] + self.operand(d)
        out += ["{"]
        for _ in range(self.count()):
            if self.chance(0.25):
                out += ["static"]
            r = self.r.random()
            if r < 0.1:
                out += ["constructor"] + self.method(d)
            elif r < 0.3:
                k = self.pick([[self.name()], [self.pick(KEYWORDS_AS_NAMES)]])
                out += [self.pick(["get", "set"])] + k + self.method(d)
            elif r < 0.7:
                out += self.member_key(d) + self.method(d)
            else:
                out += self.member_key(d) + ["="] + self.expr(d)
            if self.chance(0.4):
                out += [";"]
        return out + ["}"]

    # -- patterns ---------------------------------------------------------------------------
    def pattern(self, d):
        r = self.r.random()
        if d <= 0 or r < 0.7:
            return [self.name()]
        if r < 0.85:
            out = ["["]
            n = self.count()
            for i in range(n):
                if i:
                    out += [","]
                if self.chance(0.12):
                    continue
                out += self.pattern(d - 1)
                if self.chance(0.2):
                    out += ["="] + self.expr(d - 1)
            if self.chance(0.08):
                out += [","]
            return out + ["]"]
        return self.object(d - 1)

    # -- statements -------------------------------------------------------------------------
    def end(self):
        """how a statement ends"""
        r = self.r.random()
        return [";"] if r < 0.7 else [NL] if r < 0.93 else []

    def block(self, d):
        out = ["{"]
        for _ in range(self.count()):
            out += self.statement(d - 1)
        return out + ["}"]

    def declaration(self, d, kind=None):
        out = [kind or self.pick(["var", "let", "const"])]
        for i in range(max(1, self.count())):
            if i:
                out += [","]
            out += self.pattern(d)
            if self.chance(0.6):
                out += ["="] + self.expr(d)
        return out

    def statement(self, d):
        g = self
        e = min(d, 2) if g.chance(0.7) else d
        if d <= 0:
            r = g.r.random()
            if r < 0.1:
                return [";"]
            if r < 0.2:
                return g.declaration(0) + g.end()
            return g.atom() + g.end()
        r = g.r.random()
        if r < 0.30:
            return g.expr(e, -1) + g.end()
        if r < 0.42:
            return g.declaration(e) + g.end()
        if r < 0.45:
            return ["return"] + ([NOBREAK] + g.expr(e, -1) if g.chance(0.7) else []) + g.end()
        if r < 0.48:
            return [g.pick(["break", "continue"])] + ([NOBREAK, g.name()] if g.chance(0.5) else []) + g.end()
        if r < 0.50:
            return ["throw"] + g.expr(e, -1) + g.end()
        if r < 0.57:
            out = ["if", "("] + g.expr(e, -1) + [")"] + g.statement(d - 1)
            if g.chance(0.5):
                out += ["else"] + g.statement(d - 1)
            return out
        if r < 0.60:
            return ["while", "("] + g.expr(e, -1) + [")"] + g.statement(d - 1)
        if r < 0.63:
            return ["do"] + g.statement(d - 1) + ["while", "("] + g.expr(e, -1) + [")"] + g.end()
        if r < 0.67:
            out = ["for", "("]
            s = g.r.random()
            if s < 0.3:
                out += g.declaration(e)
            elif s < 0.6:
                out += g.expr(e, -1)
            out += [";"] + (g.expr(e, -1) if g.chance(0.6) else []) + [";"] + (g.expr(e, -1) if g.chance(0.6) else [])
            return out + [")"] + g.statement(d - 1)
        if r < 0.72:
            out = ["for", "("]
            s = g.r.random()
            if s < 0.5:
                out += [g.pick(["var", "let", "const"])] + g.pattern(e)
            else:
                out += g.target(e)
            return out + [g.pick(["in", "of"])] + g.expr(e, -1) + [")"] + g.statement(d - 1)
        if r < 0.76:
            out = ["try"] + g.block(d)
            s = g.r.random()
            if s < 0.8:
                out += ["catch", "("] + g.pattern(e) + [")"] + g.block(d)
            if s > 0.5:
                out += ["finally"] + g.block(d)
            return out
        if r < 0.80:
            return g.block(d)
        if r < 0.82:
            return [g.name(), ":"] + g.statement(d - 1)
        if r < 0.86:
            return ["function"] + (["*"] if g.chance(0.2) else []) + [g.name()] + g.method(d)
        if r < 0.90:
            return g.klass(d, True)
        if r < 0.94:
            out = ["switch", "("] + g.expr(e, -1) + [")", "{"]
            for _ in range(g.count()):
                out += ["default"] if g.chance(0.2) else ["case"] + g.expr(e, -1)
                out += [":"]
                for _ in range(g.count()):
                    out += g.statement(d - 1)
            return out + ["}"]
        if r < 0.96:
            return ["debugger"] + g.end()
        if r < 0.97:
            return [";"]
        return g.importing() + g.end()

    def importing(self):
        g = self
        r = g.r.random()
        s = g.pick(["'m'", '"mod"', "'./a b'", '"it\'s"'])
        if r < 0.15:
            return ["import", s]
        out = ["import"]
        if r < 0.5:
            out += [g.name()]
            if r < 0.35:
                return out + ["from", s]
            out += [","]
        if g.chance(0.3):
            return out + ["*", "as", g.name(), "from", s]
        out += ["{"]
        for i in range(max(1, g.count())):
            if i:
                out += [","]
            out += [g.name()] + (["as", g.name()] if g.chance(0.4) else [])
        return out + ["}", "from", s]

    def program(self, d=3, n=None):
        out = []
        for _ in range(n if n is not None else self.r.choice([1, 1, 2, 3])):
            out += self.statement(d)
        return out


# -- layout ---------------------------------------------------------------------------------
WORDY = re.compile(r"[A-Za-z0-9_$\\]|[^\x00-\x7f]")
OPCH = set("!%&*+-/<=>?^|.:")


def needs_space(a, b):
    """whether the texts a and b could become other tokens when put side by side"""
    x, y = a[-1], b[0]
    if WORDY.match(x) and WORDY.match(y):
        return True
    if x in OPCH and y in OPCH:
        return True
    if x == "." and (y.isdigit() or y == "."):
        return True
    if WORDY.match(x) and y == "." and a[0].isdigit():
        return True
    if x == "/" or (y == "/" and x in "/*"):
        return True
    if a[0] == "/" and len(a) > 1 and WORDY.match(y):
        return True
    return False


SPACES = [" ", "  ", "\t", " \t ", "\r", "\f", "      ", "            "]
BREAKS = ["\n", "\n\n", " \n", "\n  ", "\r\n", "/*\n*/", "// c\n", " /* x */ \n", "\n// ab ' ` /* \n", "/* a\nb */ ", "//\n"]
COMMENTS = ["/**/", "/* c */", "/***/", " /* a */ /* b */ ", "/* // */", "/*'*/", "/* é */", "/* 12345678901234567890 */", "/*/ */"]


def lay(tokens, rng, style="mixed"):
    """a text from tokens.  style: tight, plain, mixed, wild"""
    out = []
    prev = None
    nobreak = False
    want = False
    start = 0
    for t in tokens:
        if t == NL:
            want = True
            continue
        if t == NOBREAK:
            nobreak = True
            continue
        if prev is not None:
            sep = ""
            need = needs_space(prev, t)
            if prev.startswith("`") is False and prev.endswith("${"):
                need = False
            if want:
                sep = "\n" if style in ("tight", "plain") or rng.random() < 0.5 else rng.choice(BREAKS)
            elif style == "tight":
                sep = " " if need else ""
            elif style == "plain":
                sep = " "
            else:
                r = rng.random()
                wild = style == "wild"
                if r < (0.35 if wild else 0.75):
                    sep = " " if need or rng.random() < 0.4 else ""
                elif r < (0.55 if wild else 0.85):
                    sep = rng.choice(SPACES)
                elif r < (0.75 if wild else 0.92):
                    sep = rng.choice(COMMENTS)
                    if need and prev[-1] in "/*":
                        sep = " " + sep
                elif nobreak:
                    sep = " "
                else:
                    sep = rng.choice(BREAKS)
                    if sep[0] == "/":
                        sep = " " + sep
                if sep and sep[0] in "/*" and prev[-1] in "/*":
                    sep = " " + sep
            out.append(sep)
        out.append(t)
        prev = t
        nobreak = want = False
    if want:
        out.append("\n")
    return "".join(out)
