"""Families of source texts.  Each is a generator of texts; what a text means is decided by the
specification alone.  `part` = (i, n) picks every n-th member of the systematic families."""
import itertools, random, re

from gen import *

PUNCT = ["{", "}", "(", ")", "[", "]", ";", ":", ",", "!", "~", "*", "/", "%", "+", "-", "<", ">", "&", "^", "|", "?", "=",
         "=>", "++", "--", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "^=",
         "|=", ">>>", "===", "!==", "**=", "<<=", ">>=", "...", ">>>="]
KEYWORDS = ["break", "const", "continue", "case", "catch", "class", "do", "delete", "default", "debugger", "else", "export",
            "extends", "enum", "finally", "for", "function", "false", "in", "instanceof", "interface", "if", "import",
            "implements", "let", "new", "null", "package", "public", "protected", "private", "return", "super", "switch",
            "static", "typeof", "this", "throw", "try", "true", "undefined", "var", "void", "while", "with", "yield"]
NUMERALS = NUMS + BINS + ["0", "09", "1.", "1..", "1.e5", "0x", "0X1g", "0b", "0b12", "0o", "0o78", "1e", "1e+", "1E-5", "1a",
                          "1.5.5", "0.0", "0e0", ".5e1", ".0", "00.5", "1_0", "0xFFFFFFFFFFFFFFFFF"]
ODD = ["#", "@", "\\", "\\u0041", "a\\b", "☃", "€", "😀", "\u00a0", "\u2028", "«", "\ufeff", "\u0301", "a☃", "é☃", "\u0007", "\x7f",
       ".", "..", "....", ".a", ". a", ".\n/a", "./**/a", "./*\n*/ /**/b", ".//c\n d", "./* a", "./", ".//", "/=x/", "/=/g", ".é", ".1a", ".☃", ". ", ".if", ".0", ".#"]
QUOTED = STRS + ["'", '"', "'abc", '"abc', "'\\", "'\\'", "`", "`a", "`\\", "`a${", "`${`", "`$", "`$$", "`\\${`", "`a`", "``", "`é${",
                 "'a\nb'", "`a\nb`"]
COMMENTED = ["//", "// x", "//\n", "// x\n", "/**/", "/* x */", "/*\n*/", "/* * / */", "/*", "/* x", "/***/", "/*/", "//*\n", "/* */ */"]

WORDS = ["a", "é", "$", "_", "a1", "aé", "éa", "ifa", "aif", "doo", "d", "i", "f", "instanceo", "instanceofx", "functio", "Function", "IF",
         "If", "iF", "undefine", "undefinedd", "nulll", "nul", "tru", "truee", "of", "as", "get", "from", "async", "await", "of1",
         "𝒳", "𝒳y", "漢", "٣", "ſ", "Ⴀ", "πif", "ifπ", "if_", "if$", "if1", "in\\"]

ALL_TOKENS = PUNCT + KEYWORDS + NUMERALS + ODD + QUOTED + COMMENTED + WORDS + REGEX
SEPARATORS = ["", " ", "\n", "/**/", "\t", "//\n", "\r\n", "/*\n*/", " \n ", "\x0b", "\x0c", "\x1f"]


def every(xs, part):
    i, n = part
    return itertools.islice(xs, i, None, n)


def style(rng):
    return rng.choice(["tight", "plain", "mixed", "mixed", "wild"])


# -- texts for the lexer ----------------------------------------------------------------------
SHORT = list("a0x.'\"`$\\{}/*\n =+-<>!;)([e1é☃\r|&")


def short_strings(length, part, alphabet=SHORT):
    for n in range(0, length + 1):
        yield from every(("".join(t) for t in itertools.product(alphabet, repeat=n)), part)


def token_pairs(part):
    for j, (a, b) in enumerate(every(itertools.product(ALL_TOKENS, repeat=2), part)):
        yield a + SEPARATORS[(j * 7 + j // 11) % len(SEPARATORS)] + b


def token_strings(rng, n):
    for _ in range(n):
        out = []
        for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20])):
            out.append(rng.choice(ALL_TOKENS))
            out.append(rng.choice(SEPARATORS) if rng.random() < 0.8 else "")
        yield "".join(out)


def keyword_neighbours(part):
    def gen():
        for k in KEYWORDS + ["of", "as", "from", "get", "set", "async", "constructor", "target"]:
            for i in range(1, len(k) + 1):
                for tail in ["", " ", ";", "(", "\n", "/", "é", "1", "x", "$", ".", "☃"]:
                    yield k[:i] + tail
            for i in range(len(k)):
                for ch in "a_1Zé":
                    yield k[:i] + ch + k[i + 1:]
                    yield k[:i] + ch + k[i:]
                yield k[:i] + k[i].upper() + k[i + 1:]
                yield k[:i] + k[i + 1:]
    return every(gen(), part)


LENGTHS = list(range(0, 70)) + [79, 80, 81, 95, 96, 97, 126, 127, 128, 129, 130, 199, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023,
                                1024, 1025]


SLOW_RUNS = {14, 19, 20, 23, 32, 33, 36, 37}


def runs(part, big=()):
    """every kind of run of characters, of every length, starting at several offsets"""
    def gen():
        for n in itertools.chain(LENGTHS, big):
            kinds = ["a" * n, "_" + "Z9" * (n // 2), "é" * n, "x" + "漢" * n, "1" * n, "0" * n, "0x" + "f" * n, "0b" + "10" * (n // 2),
                     "1." + "5" * n, "1e" + "1" * n, "." + "7" * n,
                     "'" + "s" * n + "'", '"' + "é" * n + '"', "'" + "s" * n, '"' + "\\'" * n + '"', "'" + "s" * n + "\\'t'",
                     "`" + "t" * n + "`", "`" + "t" * n + "${", "`" + "t" * n, "`" + "\\`" * n + "`", "`" + "$" * n + "`", "`" + "t" * n + "\\${`",
                     "/*" + "c" * n + "*/x", "/*" + "*" * n + "/x", "/*" + "c" * n, "/*" + "c" * n + "\n*/x", "//" + "c" * n + "\nx", "//" + "c" * n,
                     " " * n + "x", "\n" * n + "x", "\t" * n, " " * n + "\n" + " " * n + "x", "/**/" * n + "x", "//\n" * n + "x", "/*" + "é" * n + "*/x",
                     "/" + "r" * n + "/g", "/[" + "/" * n + "]/", "/" + "\\/" * n + "/", "/r/" + "g" * n, "/" + "r" * n]
            pre = ["", "x;", "x ", "é", "(", "\n", "xx\n;;", "'y'", "\n  ", "x/**/"][n % 10]
            for j, k in enumerate(kinds):
                # what takes the specification a level of recursion for every unit
                if n > 300 and j in SLOW_RUNS:
                    continue
                yield pre + k + ["", " ", ";x", "é"][(n + j) % 4]
    return every(gen(), part)


CHARS = list("éπ漢𝒳٣ſႠªµ²½\u0345ࠀ๐ⅷⒶー\U00010000𝟎𠮷☃€😀\u00a0\u2028«\ufeff\u0301\x80¡×÷\u200c\u200d‿\u2029\u3000\ue000\ufffd\U0010ffff")
AROUND = ["{0}", "{0}{0}", "{0}a", "a{0}", "a{0}b", " {0} ", "a {0}", "{0} a", "a\n{0}\nb", "({0})", "a = {0};", "a.{0}", "a.{0}b", "a. {0}", "a.b{0}", "1{0}", "1.{0}", "0x{0}", "1e{0}", ".5{0}", "0b1{0}", "if{0}", "i{0}f", "{0}if",
          "var {0} = 1", "let [{0}, a{0}] = b", "function {0}({0}) {{ return {0} }}", "class {0} {{ {0}() {{}} }}", "x = {{ {0}: 1, {0} }}", "{0}: for (;;) break {0}", "`{0}`", "`a{0}${{{0}}}{0}b`", "a`{0}`", "'{0}'", "'a{0}b'", '"{0}\'"', "'\\{0}'", "'\\\\{0}'",
          "x = /{0}/", "x = /[{0}]{0}/g", "x = /a/{0}", "x = /\\{0}/", "//{0}\na", "// a{0}", "/*{0}*/a", "a/*\n{0}*/b", "/**{0}*/a", "a +{0}+ b", "\\{0}", "#{0}", "...{0}", "={0}>", "{0}=>a", "a {0} b", "import {0} from '{0}'", "'{0}", "`{0}", "`a${{{0}", "/*{0}", "/{0}",
          "return{0}", "return {0}", "a{0}++", "-{0}", "typeof {0}", "typeof{0}", "new {0}", "{0} in {0}", "{0}of{0}", "for (a {0} b) c"]


def characters(part):
    """characters of every length and class, first and last ones, in every kind of place"""
    return every((t.format(c) for t in AROUND for c in CHARS), part)


def random_chars(rng, n):
    alphabets = ["ab01 .'\"`$\\{}/*\n=+-", "a/*\n \t;", "'\"\\\nab", "`${}\\a'", "0123456789abxoXOeE.+-_", "é漢𝒳☃€😀aπ٣ \n.", "".join(CHARS) + "a. \n'`/*" * 3, "<>=!&|*/+-%^~?:;,.()[]{} \n",
                 "".join(chr(c) for c in range(1, 127)), "/\\[]gimuy*=a\n)"]
    for _ in range(n):
        a = rng.choice(alphabets)
        yield "".join(rng.choice(a) for _ in range(rng.choice([3, 6, 12, 25, 50])))


# -- programs ---------------------------------------------------------------------------------
def programs(rng, n, depth=3, styles=None, regex=True):
    for _ in range(n):
        d = rng.choice([1, 2, 2, 3]) if depth == 3 else depth
        g = Gen(rng, regex=regex)
        yield lay(g.program(d), rng, rng.choice(styles) if styles else style(rng))


def expression_programs(rng, n, depth=4):
    """expressions in all the positions that an expression may take"""
    for _ in range(n):
        g = Gen(rng)
        d = rng.choice([1, 2, 3, depth])
        e = g.expr(d, -1)
        one = g.expr(d)
        t = rng.choice([
            lambda: ["("] + e + [")"], lambda: ["x", "="] + one, lambda: ["var", "x", "="] + one, lambda: ["return"] + ["("] + e + [")"],
            lambda: ["if", "("] + e + [")", ";"], lambda: ["f", "("] + one + [","] + g.expr(1) + [")"], lambda: ["["] + one + ["]"],
            lambda: ["x", "=", "{", "k", ":"] + one + ["}"], lambda: ["x", "?"] + one + [":"] + g.expr(1), lambda: ["throw"] + e,
            lambda: ["`${"] + e + ["}`"], lambda: ["for", "(", ";"] + e + [";", ")", ";"], lambda: ["switch", "("] + e + [")", "{", "}"],
            lambda: ["x", "["] + e + ["]"], lambda: ["class", "A", "{", "p", "="] + one + ["}"], lambda: ["a", "=>"] + ["("] + e + [")"],
            lambda: ["function", "f", "(", "a", "="] + one + [")", "{", "}"], lambda: ["x", "=", "{", "["] + e + ["]", ":", "1", "}"],
            lambda: ["case", "x", ":"] + e, lambda: e, lambda: ["while", "("] + e + [")"] + g.expr(1) + [";"],
            lambda: ["do", ";", "while", "("] + e + [")"], lambda: ["let", "[", "x", "="] + one + ["]", "=", "y"], lambda: e])()
        yield lay(t, rng, style(rng))


OPERATORS = BINARY + ASSIGN + [","]
REPRESENTATIVES = ["=", "+=", "||", "&&", "|", "^", "&", "==", "<", "in", "<<", "+", "*", "**", ",", "**="]
UNARIES = PREFIX + ["new"]


HEADS = ["/b/", "/b/g", "/=b/", "+b", "-b", "++b", "--b", "!b", "~b", "typeof b", "void b", "delete b", "new b", "b++", "b--", "b", "1", "1.", ".5", "0x1", "1e3", "'s'",
         "`s`", "[b]", "{b: 1}", "function () {}", "class {}", "b => c", "(b, c)", "b = c", "b ? c : d", "this", "new.target", "b ** c", "b * c", "b in c", "new b(c)",
         "new b.c", "b(c)", "0", "00", "1e", "0b1", "0o7"]
TAILS = ["", ".c", "[c]", "()", "`c`", "`c${d}e`", "++", "--", " ? c : d", ".c.d", ".c()", "()()", "`c`.d", "`c``d`", "[c]++", ".c`d`", "()[c]", " in c", " * c", " ** c", " + c",
         " - c", " / c", " = c", " => c", ", c", ".c in d", ".c--"]


def signs(part):
    """an operator or a keyword before every construct that begins with a sign or a slash"""
    def gen():
        for h in ["/b/", "/=b/g", "+b", "-b", "++b", "--b", "!b", "typeof b", "new b"]:
            for t in TAILS:
                for e in [h + t, "(%s)%s" % (h, t)]:
                    for o in ["a +", "a -", "a /", "a in", "a =", "+", "-", "!", "typeof", "new", "return", "a ?", "case_:", "a++ +", "a-- -", "a ** "]:
                        yield "%s %s%s" % (o, e, " : c" if o[-1] == "?" else "")
    return every(gen(), part)


def neighbours(part):
    """what may come to stand next to an operator or a keyword, at the beginning of every construct that can begin with an operand"""
    def gen():
        for h in HEADS:
            for t in TAILS:
                for e in [h + t, "(%s)%s" % (h, t), "((%s)%s)" % (h, t)]:
                    for o in ["+", "-", "/", "*", "in", "instanceof", "&&", "**", "=", "/=", ",", "<", ">>>", "%"]:
                        yield "a %s %s" % (o, e)
                    for u in ["+", "-", "!", "typeof", "new", "++", "--", "void"]:
                        yield "%s %s" % (u, e)
                    for c in ["%s", "x = %s", "return %s", "throw %s", "a ? %s : b", "a ? b : %s", "a => %s", "`${%s}`", "if (%s) a; else b", "for (%s;;);", "for (a of %s);", "for (a in %s);",
                              "for (%s in a);", "x = class extends %s {}", "x = {a: %s}", "x = {[%s]: a}", "switch (%s) { case %s: }", "f(%s)", "f(...%s)", "[%s]", "[...%s]", "a[%s]",
                              "var a = %s", "var [a = %s] = b", "function f(a = %s) {}", "class A { a = %s; [%s]() {} }", "do a; while (%s)", "a++\n%s", "%s\n++a", "else_: %s", "(a = %s) => b"]:
                        yield c.replace("%s", e)
    return every(gen(), part)


EDGES = ["\ufeff", "\u00a0", "\u2028", "\u2029", "#!x\n", "<!-- a\n", "--> a\n", "\r\n", "\r", "\x0b", "\x0c", "\x1a", "\x7f", "\x85", "\u200b", "\u200d", "\u180e", "\u3000", "\n\n\n", "   ",
         "\t", "//\n", "/**/", "'use strict';", "'use strict'\n", ";", "{}", "\\", "\ufffe", "\ud7ff", "\U0010ffff", "\x01", "\x08", "/*\n*/", "\u1680", "\u2000", "\u202f", "\u205f", "\u00ad", "\u0301"]


def edges(part):
    """unusual characters and lines at the beginning, at the end and inside of texts"""
    def gen():
        for e in EDGES:
            for t in ["", "a", "a;", "a b", "a)", "function f() {}", "var a = 'x'", "`t`", "a\n+b", "/r/", "1", "a.b", "\n", "import 'm'"]:
                yield e + t
                yield t + e
                yield e + t + e
                yield t + e + t
                yield t + "\n" + e
                yield t + " " + e + " b"
            for f in EDGES:
                yield e + f
                yield e + f + "a"
                yield "a" + e + f
    return every(gen(), part)


def operator_pairs(part):
    def gen():
        for o in OPERATORS:
            yield "a %s b" % o
            for p in OPERATORS:
                yield "a %s b %s c" % (o, p)
                yield "(a %s b) %s c" % (o, p)
                yield "a %s (b %s c)" % (o, p)
            for u in UNARIES:
                yield "%s a %s b" % (u, o)
                yield "%s (a %s b)" % (u, o)
                yield "a %s %s b" % (o, u)
                yield "(%s a) %s b" % (u, o)
            for q in ["++", "--"]:
                yield "a%s %s b" % (q, o)
                yield "a %s b%s" % (o, q)
                yield "(a %s b)%s" % (o, q)
            for t in ["a ? b : c {0} d", "a {0} b ? c : d", "a ? b {0} c : d", "(a ? b : c) {0} d", "a {0} (b ? c : d)", "a {0} b => c", "a => b {0} c",
                      "(a => b) {0} c", "a {0} (b => c)", "a {0} b.c", "a.b {0} c", "a {0} b()", "a() {0} b", "a {0} b`x`", "a`x` {0} b", "a {0} b[c]", "(a {0} b)()",
                      "(a {0} b).c", "(a {0} b)[c]", "(a {0} b)`x`", "a[b {0} c]", "f(a {0} b)", "[a {0} b]", "({{a: b {0} c}})", "`${{a {0} b}}`", "new a {0} b", "new (a {0} b)",
                      "new (a {0} b)()", "...a {0} b", "f(...a {0} b)", "[...a {0} b]", "a {0} function () {{}}", "a {0} class {{}}", "a {0} {{}}", "a {0} []", "({{}}) {0} a",
                      "(function () {{}}) {0} a", "a {0} /x/", "/x/ {0} a", "a {0} /x/g {0} b", "'s' {0} 1", "1 {0} 's'", "this {0} null", "{{}} {0} a", "a\n{0} b", "a {0}\nb",
                      "for (a {0} b in c);", "for (a in b {0} c);", "for (a of b {0} c);", "for (a {0} b;;);", "for (var x = a {0} b;;);", "for (var x in a {0} b);",
                      "(a, b {0} c)", "(a {0} b, c)", "(a {0} b) => c", "(a, b {0} c) => d", "async {0} b", "a {0} void b", "a{0}b", "1{0}2", "a {0} -1", "a{0}-b", "a{0}+b", "a{0}++b", "a++{0}b",
                      "a{0}/b/", "x = a {0} b", "x = y = a {0} b", "!a {0} !b", "typeof a {0} typeof b", "-a {0} -b", "new.target {0} a", "a {0} new.target",
                      "a {0} b {0} c {0} d", "(a {0} b) {0} (c {0} d)", "return a {0} b", "throw a {0} b", "case a {0} b", "if (a {0} b) c"]:
                yield t.format(o)
        for u in UNARIES:
            for v in UNARIES:
                yield "%s %s a" % (u, v)
                yield "%s (%s a)" % (u, v)
            for t in ["{0} a", "{0} a.b", "{0} a()", "{0} a[b]", "{0} a`x`", "{0} a++", "({0} a)++", "({0} a).b", "({0} a)()", "{0} (a, b)", "{0} (a ? b : c)", "{0} a ? b : c", "{0} a => b",
                      "{0} (a => b)", "{0} a.b.c()", "{0} a().b", "{0} (a())", "{0} (a().b)", "{0} (a.b)()", "{0} (a())()", "{0} []", "{0} ({{}})", "{0} function () {{}}", "{0} class {{}}",
                      "{0} 1", "{0} 's'", "{0} /x/", "{0} `x`", "{0} this", "{0} null", "{0}\na", "{0} a\nb", "a\n{0} b", "{0} new a", "{0} new a()", "{0} a = b", "{0} a += b", "({0} a) = b",
                      "{0} a, b", "[{0} a]", "f({0} a)", "f(...{0} a)", "{0} a()()", "{0} a()[b]", "{0} a()`x`", "{0} a[b]()", "{0} a`x`()", "{0} a.b`x`", "({0} a)`x`", "({0} a)[b]", "{0} new new a()()",
                      "{0} (new a)", "{0} (new a)()", "{0} new (a())", "{0} new (a().b)()", "{0} new a.b.c(d)", "{0} new.target", "{0} a instanceof b", "{0} a in b", "{0} a ** b", "({0} a) ** b", "a ** {0} b"]:
                yield t.format(u)
    return every(gen(), part)


def operator_triples(part):
    def gen():
        for o, p, q in itertools.product(REPRESENTATIVES, repeat=3):
            yield "a %s b %s c %s d" % (o, p, q)
            yield "a %s (b %s c) %s d" % (o, p, q)
    return every(gen(), part)


# -- constructs in positions --------------------------------------------------------------------
EXPRS = ["a", "a.b", "a[b]", "a()", "a(b, c)", "new a", "new a()", "new a.b(c)", "(a, b)", "a ? b : c", "a => b", "(a, b) => c", "() => {{}}", "() => ({{}})", "a => {{ return b }}", "a = b",
         "a += b", "a || b", "a + b", "a * b", "a ** b", "a in b", "a instanceof b", "!a", "-a", "+a", "--a", "++a", "typeof a", "void a", "delete a", "a++", "a--", "[]", "[a, , b]", "[...a]",
         "({{}})", "({{a: b, c, d() {{}}, ...e}})", "({{[a]: b, 'c': d, 1: e, 0b1: f}})", "function () {{}}", "function f(a, b = c, ...d) {{ return a }}", "function* g() {{}}", "class {{}}",
         "class A extends b {{ c() {{}} }}", "class {{ static a = b; get c() {{}} set d(e) {{}} }}", "`x`", "`x${{a}}y`", "a`x`", "a.b`${{c}}`", "/x/g", "1", "1.5", "0x1F", "0b1", "'s'", "this", "null",
         "true", "undefined", "new.target", "a.if", "1..b", "1.5.toString()", "(function () {{}})()", "(() => a)()", "(a => b) || c", "a(...b)", "[a = b]", "{{}}", "({{a = b}})", "a.b = c", "[a, b] = c",
         "({{a, b: c}}) = d", "async", "a.b++", "(a)", "((a))", "-(-a)", "- -a", "+ +a", "- --a", "!(!a)", "a - -b", "a + +b", "a - --b", "a++ + ++b", "a-- - --b", "a / /x/g", "a < b > c",
         "a < !--b", "a-- > b", "(a ** b) ** c", "(-a) ** b", "a ** -b", "(a, b), c", "(a ? b : c) ? d : e", "a ? b, c : d", "a ? (b, c) : (d, e)", "(a = b) = c", "(a => b).c", "(a => b)()", "new (a())",
         "new (a().b)", "new (a.b().c)()", "new (a`x`)", "new (a()`x`)", "(new a).b", "new (new a)", "(new a)()", "new (a, b)", "new (function () {{}})", "new class {{}}()", "new (class {{}}.b)", "import(a)",
         "a\n.b", "a\n(b)", "a[b, c]", "a[(b, c)]", "a['b']", "a[1].b", "(a.b).c", "(a + b).c", "(1).b", "1.0.b", "(0x1).b", "(1.5).b", "'s'.b", "[].b", "({{}}).b", "({{}}.b)", "({{}}[a])", "({{}}`x`)",
         "(class {{}}).b", "(function () {{}}).b", "`x`.b", "/x/.b", "this.b", "null.b", "(a`x`).b", "a.b.c.d", "a()()", "a()[b].c`x`"]
HOLES = ["{0}", "({0})", "x = {0}", "x += {0}", "var x = {0}", "let x = {0}, y = {0}", "const [x = {0}] = {0}", "return {0}", "throw {0}", "if ({0}) x; else y", "while ({0}) x", "do x; while ({0})",
         "for ({0};;) x", "for (;{0};) x", "for (;;{0}) x", "for (x in {0}) y", "for (x of {0}) y", "for ({0} in x) y", "for ({0} of x) y", "for (var x = {0};;) y", "switch ({0}) {{ case {0}: {0} }}", "f({0})", "f(x, {0})",
         "f(...{0})", "[{0}]", "[x, {0}, y]", "[...{0}]", "({{x: {0}}})", "({{[{0}]: x}})", "({{...{0}}})", "({{x() {{ return {0} }}}})", "({{[{0}]() {{}}}})", "`a${{{0}}}b`", "`${{{0}}}${{{0}}}`", "x`${{{0}}}`", "{0} ? x : y", "x ? {0} : y",
         "x ? y : {0}", "x => {0}", "x => {{ {0} }}", "(x = {0}) => y", "function f(x = {0}) {{ return {0} }}", "function f({{x: {0}}}) {{}}", "class A extends {0} {{}}", "class A {{ x = {0} }}", "class A {{ static [{0}] = {0} }}",
         "class A {{ [{0}]() {{}} }}", "x = class {{ static x() {{ {0} }} }}", "{0}, x", "x, {0}", "{0} + x", "x + {0}", "{0} - x", "x - {0}", "{0} * x", "x * {0}", "{0} / x", "x / {0}", "{0} ** x", "x ** {0}", "{0} || x", "x && {0}", "{0} in x",
         "x in {0}", "{0} instanceof x", "{0} == x", "x < {0}", "{0} = x", "!{0}", "-{0}", "+{0}", "--{0}", "++{0}", "typeof {0}", "void {0}", "delete {0}", "new {0}", "new {0}()", "new ({0})", "new ({0})()", "({0})++", "{0}.x", "({0}).x", "({0})[x]", "x[{0}]",
         "({0})()", "({0})`x`", "{{ {0} }}", "{{ {0}; }}", "x: {0}", "case_: {0}", "if (x) {0}", "if (x) {0}; else {0}", "try {{ {0} }} catch (x) {{ {0} }} finally {{ {0} }}", "function f() {{ {0} }}", "() => {0}", "for (;;) {0}",
         "for (let x of {0}) {{ {0} }}", "switch (x) {{ default: {0} }}", "{0}\n{0}", "{0};{0}", "(x, {0})", "({0}, x)", "({0}) => x", "...{0}", "a = b = {0}", "({0}) = x", "x = ({0}, y)", "f(({0}, y))", "[({0}, y)]"]


def constructs_in_positions(part):
    return every((h.format(e.format()) for e in EXPRS for h in HOLES), part)


STATEMENTS = [";", "a", "a;", "debugger", "debugger;", "var a", "var a = b, c", "let a = b", "const {a, b: c} = d, [e, , f = g] = h", "return", "return a", "break", "break a", "continue", "continue a",
              "throw a", "if (a) b", "if (a) b; else c", "if (a) {} else {}", "if (a) ; else ;", "if (a) if (b) c; else d", "if (a) {if (b) c} else d", "if (a) b; else if (c) d; else e", "while (a) b", "while (a) ;", "while (a) {}", "do a; while (b)",
              "do {} while (a)", "do ; while (a)", "do do a; while (b); while (c)", "for (;;) a", "for (;;);", "for (;;) {}", "for (a; b; c) d", "for (var a = 1, b; a < b; a++) {}", "for (a in b) c", "for (var a in b) {}", "for (let [a, b] of c) {}",
              "for (a.b of c) ;", "for (const {a} in b) ;", "try {} catch (a) {}", "try {} finally {}", "try {a} catch ({b}) {c} finally {d}", "{}", "{a}", "{a; b}", "{{}}", "{{a} b}", "a: b", "a: b: c", "a: {}", "a: for (;;) {}",
              "function f() {}", "function* f(a, b) { return a }", "function f(a = b, {c, d: e}, [g], ...h) {}", "class A {}", "class A extends B {}", "class A { constructor() {} a() {} get b() {} set b(c) {} static d() {} static get e() {} [f]() {} 1() {} g = h; static i = j }",
              "switch (a) {}", "switch (a) { case b: }", "switch (a) { case b: c; case d: case e: f; g; default: h }", "switch (a) { default: b; case c: }", "import 'a'", "import a from 'b'", "import {a} from 'b'", "import {a as b, c} from 'd'", "import * as a from 'b'",
              "import a, {b} from 'c'", "import a, * as b from 'c'", "import(a)", "function f() {} /a/g", "a\n++b", "a++\nb", "({})", "[a]", "(a)", "`a`", "/a/", "+a", "-a", "!a", "++a", "--a", "new a", "this", "1", "'a'", "(function () {})", "(class {})",
              "a => b", "(a) => {}", "() => {}", "get", "of", "async", "a.b", "a()", "typeof a", "delete a.b", "void 0", "null", "{a: b}", "({a: b})", "{a: {b: c}}", "a, b", "a = b", "a ? b : c", "export", "with", "enum", "yield", "super"]
ENDS = [" ", "\n", ";", ";\n", "\n;", " // c\n", " /* c */ ", " /*\n*/ ", ";;", "}", ")", "", "\r\n", "\t", "/*é*/"]


def statement_pairs(part):
    def gen():
        for a in STATEMENTS:
            for b in STATEMENTS:
                for s in ENDS:
                    yield a + s + b
    return every(gen(), part)


BODIES = ["if (x) {0}", "if (x) {0} else y", "if (x) y; else {0}", "if (x) {0}; else y", "while (x) {0}", "do {0} while (x)", "do {0}; while (x)", "for (;;) {0}", "for (x in y) {0}", "for (x of y) {0}", "x: {0}", "{{ {0} }}", "{{ x; {0} }}", "{{ {0}; x }}",
          "function f() {{ {0} }}", "() => {{ {0} }}", "switch (x) {{ case y: {0} }}", "switch (x) {{ default: {0} case z: w }}", "try {{ {0} }} catch (x) {{ {0} }}", "try {{}} finally {{ {0} }}", "class A {{ m() {{ {0} }} }}", "({{ m() {{ {0} }} }})",
          "if (x) if (y) {0} else z", "if (x) {{ {0} }} else {{ {0} }}", "{0}", "{0}\n{0}", "x; {0}", "{0}; x", "{0} // c", "{0} /* c */", "`${{ function () {{ {0} }} }}`", "do {0}\nwhile (x)", "if (x) {0}\nelse y", "while (x) while (y) {0}", "x: y: {0}"]


def statements_in_positions(part):
    def gen():
        for h in BODIES:
            for s in STATEMENTS:
                yield h.replace("{{", "\0").replace("}}", "\1").replace("{0}", s).replace("\0", "{").replace("\1", "}")
    return every(gen(), part)


PATTERNS = ["a", "[]", "[a]", "[a, b]", "[, a]", "[a, , b]", "[a,]", "[,]", "[a = b]", "[[a], {b}]", "{}", "{a}", "{a, b}", "{a: b}", "{a: {b}}", "{a: [b]}", "{[a]: b}", "{'a': b}", "{1: b}", "{a: b = c}", "{a = b}", "{...a}", "[...a]", "{if: a}", "{a,}", "[{a: b}, ...c]",
            "{a: b.c}", "[a.b]", "a.b", "1", "[1]", "(a)", "{a() {}}"]
PATTERN_HOLES = ["var {0}", "var {0} = x", "let x, {0} = y, z", "const {0} = {0}", "function f({0}) {{}}", "function f(x, {0} = y, ...z) {{}}", "({0}) => x", "({0} = y) => x", "({0}, x) => y", "try {{}} catch ({0}) {{}}", "for (var {0} of x) ;", "for (let {0} in x) ;",
                 "for ({0} of x) ;", "for (var {0} = x;;) ;", "{0} = x", "({0} = x)", "[{0}] = x", "({{a: {0}}} = x)", "class A {{ m({0}) {{}} }}", "({{ m({0}) {{}} }})", "function f(...{0}) {{}}", "x = function ({0}) {{}}", "var [{0}] = x", "var [{0} = y, x] = z"]


def patterns_in_positions(part):
    def gen():
        for h in PATTERN_HOLES:
            for p in PATTERNS:
                yield h.replace("{{", "\0").replace("}}", "\1").replace("{0}", p).replace("\0", "{").replace("\1", "}")
    return every(gen(), part)


KEYS = ["a", "if", "get", "set", "static", "constructor", "async", "'a'", "1", "0b1", "[a]", "[a, b]", "1.5", "é", "of", "this", "null", "new", "typeof", "in", "let", "var", "enum", "public", "import", "function", "class", "true", "undefined", "`a`", "-1", "*a", "#a", "new.target", "a.b"]
MEMBERS = ["{0}() {{}}", "{0}(a, b = c, ...d) {{ return a }}", "{0} = x", "{0} = x;", "{0};", "{0}", "get {0}() {{}}", "set {0}(a) {{}}", "static {0}() {{}}", "static {0} = x", "static get {0}() {{}}", "static set {0}(a) {{}}", "get {0} = x", "static static {0}() {{}}",
           "async {0}() {{}}", "*{0}() {{}}", "{0}: x", "static {0}"]


def class_members(part):
    def gen():
        for k in KEYS:
            for m in MEMBERS:
                t = m.format(k)
                yield "class A { %s }" % t
                yield "x = class { %s }" % t
                yield "class A { a() {} %s b() {} }" % t
                yield "class A { %s; c = d\ne() {} }" % t
            for p in ["{0}: x", "{0}", "{0}() {{}}", "{0}: x = y", "{0} = x", "{0}: function () {{}}", "{0}: (a, b)", "get {0}() {{}}", "...{0}", "{0}: {{}}", "{0}: {0}"]:
                t = p.format(k)
                yield "({%s})" % t
                yield "x = {%s, a}" % t
                yield "x = {a, %s,}" % t
                yield "var {%s} = x" % t
                yield "({%s} = x)" % t
    return every(gen(), part)


SPECIFIERS = ["a", "{a}", "{a, b}", "{a as b}", "{a as b, c as d, e}", "* as a", "a, {b}", "a, * as b", "a, b", "{a}, b", "* as a, {b}", "{}", "a, {}", "{a,}", "{as}", "{as as as}", "{from}", "from", "as", "{from as from}", "* as from", "a as b", "*", "* as", "{a as}", "{* as a}", "{'a' as b}", "{if}", "{if as a}", "{a as if}", "of", "{a b}", "a,", "", "{a} as b"]
# every short string of quotes and escapes
ESCAPED = [q + "".join(x) + q for q in "'\"" for n in range(1, 4)
          for x in itertools.product(["a", "\\" + q, "\\\\", "\\'" if q == '"' else '\\"', '"' if q == "'" else "'"], repeat=n)]
SOURCES = ["'m'", '"m"', '"it\'s"', "'a\"b'", "'\\''", "`m`", "m", "1", "''", "'é漢'"]


def imports(part):
    def gen():
        for s in SPECIFIERS:
            for m in SOURCES:
                for e in ["", ";", "\n", " x", "\nx", ";x", "\n;", " // c\nx"]:
                    yield "import %s from %s%s" % (s, m, e)
            yield "import %s" % s
            yield "import %s 'm'" % s
            yield "import%s from'm'" % s
            yield "{import %s from 'm'}" % s
            yield "x; import %s from 'm'; y" % s
        for m in SOURCES:
            for e in ["", ";", "\n", " x", "\nx", ";x"]:
                yield "import %s%s" % (m, e)
        for i, m in enumerate(ESCAPED):
            yield ["import %s", "import %s;x", "import a from %s\nx", "import {a} from %s"][i % 4] % m
        for t in ["import", "import(", "import()", "import('m')", "import('m').then(a)", "x = import('m')", "import.meta", "import, a", "import;", "import + a", "import\n('m')", "import('m')\nx"]:
            yield t
    return every(gen(), part)


COUNTS = list(range(0, 21)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]


def lists(part, more=()):
    """lists of every length of everything that is a list"""
    def gen():
        for n in itertools.chain(COUNTS, more):
            js = range(n)
            j = lambda sep, f: sep.join(f % i for i in js)
            yield "f(%s)" % j(", ", "a%d")
            yield "f(%s)" % j(", ", "...a%d")
            yield "[%s]" % j(", ", "a%d")
            yield "[%s]" % ("," * n)
            yield "x = {%s}" % j(", ", "a%d")
            yield "x = {%s}" % j(", ", "a%d: 1")
            yield "x = {%s}" % j(", ", "a%d() {}")
            yield j("\n", "a%d")
            yield j("", "a%d;")
            yield "{%s}" % j("", "a%d;")
            yield "function f(%s) {%s}" % (j(", ", "a%d"), j("\n", "return a%d"))
            yield "(%s) => a" % j(", ", "a%d")
            yield "(%s) => a" % j(", ", "a%d = 1")
            yield "class A {%s}" % j(" ", "a%d() {}")
            yield "class A {%s}" % j(" ", "a%d = 1;")
            yield "switch (a) {%s}" % j(" ", "case a%d: b; c")
            yield "switch (a) {case 0: %s}" % j("", "a%d;")
            yield "`%s`" % j("", "x${a%d}")
            yield "`%s`" % j("", "${a%d}")
            yield "t`%s`" % j("y", "${a%d}")
            yield "a" + j("", ".b%d")
            yield "a" + j("", "(b%d)")
            yield "a" + j("", "[b%d]")
            yield "a" + j("", "`b%d`")
            yield "a" + j("", " + b%d")
            yield "a" + j("", " ** b%d")
            yield "a" + j("", " = b%d")
            yield "a" + j("", ", b%d")
            yield "a" + j("", " || b%d && c")
            yield j("", "a%d ? ") + "b" + " : c" * n
            yield j("", "a%d => ") + "b"
            yield j("", "a%d: ") + "b"
            yield "if (a) b" + j("", " \nelse if (a%d) b")
            if n:
                yield "var " + j(", ", "a%d")
                yield "let " + j(", ", "a%d = 1")
                yield "var [%s] = a" % j(", ", "a%d")
                yield "var {%s} = a" % j(", ", "a%d")
                yield "import {%s} from 'a'" % j(", ", "a%d as b%d" .replace("b%d", "b"))
                yield "import {%s} from 'a'" % j(", ", "a%d")
            if n <= 65:
                yield "(" * n + "a" + ")" * n
                yield "[" * n + "]" * n
                yield "{" * n + "}" * n
                yield "f(" * n + ")" * n
                yield "-" * 0 + "- " * n + "a"
                yield "!" * n + "a"
                yield "new " * n + "a" + "()" * n
                yield "x = " + "{a: " * n + "1" + "}" * n
                yield "if (a) " * n + "b"
                yield "`${" * n + "a" + "}`" * n
                yield "function f() {" * n + "}" * n
                yield "() => {" * n + "}" * n
                yield "() => " * n + "a"
                yield "while (a) " * n + ";"
                yield "x = " + "function () { return " * n + "1" + "}" * n
                yield "a[" * n + "b" + "]" * n
                yield "a ? b : " * n + "c"
                yield "for (;;) " * n + "a"
                yield "switch (a) { case b: " * n + "}" * n
                yield "try {" * n + "} catch (a) {}" * n
                yield "x = class { a() { " * n + "} }" * n
    return every(gen(), part)


# -- texts that are no programs -------------------------------------------------------------------
SOUP = ["a", "b", "1", "'s'", "`t`", "`t${", "}t`", "/", "/x/", "{", "}", "(", ")", "[", "]", ";", ":", ",", ".", "...", "?", "=", "=>", "+", "++", "-", "*", "**", "!", "<", "in", "of", "as", "from", "get", "static", "if", "else", "for", "while", "do", "var",
        "let", "function", "class", "extends", "return", "break", "case", "default", "switch", "try", "catch", "finally", "throw", "new", "this", "typeof", "import", "null", "undefined", "0b1", "\n", "export", "super", "yield", "with", "enum", "instanceof", "#", "☃", "'", "`",
        ".a", "continue", "debugger", "void", "delete", "+=", "true", "const"]
CORE = ["a", "1", "'s'", "`t`", "`${", "/", "{", "}", "(", ")", "[", "]", ";", ":", ",", ".b", "...", "?", "=", "=>", "+", "++", "if", "for", "var", "function", "class", "return", "new", "in", "of", "case", "else", "import", "get", "\n", "while", "do", "try", "*", "static", "#", "'"]


def soup_exhaustive(length, part, alphabet=CORE):
    for n in range(1, length + 1):
        yield from every((" ".join(t) for t in itertools.product(alphabet, repeat=n)), part)


def soup(rng, n):
    for _ in range(n):
        k = rng.choice([2, 3, 4, 5, 6, 8, 12, 20])
        yield rng.choice([" ", " ", "\n", ""]).join(rng.choice(SOUP) for _ in range(k))


def mutated(rng, n, depth=2, edits=1):
    """programs with a few tokens deleted, doubled, replaced, inserted or swapped"""
    for _ in range(n):
        g = Gen(rng)
        t = g.program(rng.choice([1, depth, depth]))
        if not t:
            continue
        for _ in range(rng.choice([1, 1, 1, 2, 3]) if edits else 0):
            i = rng.randrange(len(t))
            k = rng.randrange(6)
            if k == 0:
                del t[i]
            elif k == 1:
                t.insert(i, t[i])
            elif k == 2:
                t[i] = rng.choice(SOUP)
            elif k == 3:
                t.insert(i, rng.choice(SOUP))
            elif k == 4:
                j = rng.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            else:
                t = t[:i + 1]
            if not t:
                break
        yield lay(t, rng, rng.choice(["plain", "mixed", "tight"]))


def truncated(rng, n, depth=3):
    """programs that end early, at any character"""
    for s in programs(rng, n, depth):
        if s:
            yield s[:rng.randrange(len(s) + 1)]


def truncations(rng, n, depth=2):
    """every beginning of some programs"""
    for s in programs(rng, n, depth):
        for i in range(min(len(s), 200)):
            yield s[:i]


def char_mutated(rng, n, depth=2):
    for s in programs(rng, n, depth):
        if not s:
            continue
        s = list(s)
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(s))
            k = rng.randrange(3)
            ch = rng.choice("a0.'\"`$\\{}()[]/*\n =+-<>!;:,é☃")
            if k == 0:
                s[i] = ch
            elif k == 1:
                s.insert(i, ch)
            else:
                s[i] = ""
        yield "".join(s)


# -- layouts of one program ------------------------------------------------------------------------
def layouts(rng, n, depth=3, k=4):
    for _ in range(n):
        t = Gen(rng).program(rng.choice([1, 2, depth]))
        out = [lay(t, rng, "plain")]
        for s in ["tight", "mixed", "wild", "wild"][:k]:
            out.append(lay(t, rng, s))
        yield out


class Parens(Gen):
    """puts an expression into parentheses at random; the same random choices are otherwise made"""

    def __init__(self, rng, coin, p):
        Gen.__init__(self, rng)
        self.coin = coin
        self.p = p

    def expr(self, d, level=0):
        e = Gen.expr(self, d, level)
        if self.coin.random() < self.p:
            return ["("] + e + [")"]
        return e


def parenthesised(rng, n, depth=3):
    for _ in range(n):
        seed = rng.random()
        d = rng.choice([1, 2, depth])
        out = []
        for p in [0, 0.3, 1]:
            coin = random.Random(rng.random())
            out.append(lay(Parens(random.Random(seed), coin, p).program(d), rng, rng.choice(["plain", "mixed"])))
        yield out


# -- semicolons ---------------------------------------------------------------------------------------
INSIDE = ["return{0}a", "return{0}", "return{0};", "break{0}a", "a: for (;;) {{ break{0}a }}", "continue{0}a", "throw{0}a", "a{0}++", "a{0}--", "a{0}++{0}b", "a{0}--{0}b", "a{0}++{0}++{0}b", "++{0}a", "a{0}b", "a{0}(b)", "a{0}[b]", "a{0}.b", "a.{0}b", "a{0}`b`", "a{0}+{0}b",
          "a{0}-b", "a{0}/b/c", "a{0}/ b", "a{0}* b", "a{0}={0}b", "a{0}=> b", "a =>{0}b", "a{0}?{0}b{0}:{0}c", "a{0},{0}b", "a{0}in{0}b", "a{0}instanceof{0}b", "var{0}a{0}={0}b", "var a{0},{0}b", "let{0}a{0}b", "const a = 1{0}b", "var a{0}b", "if{0}(a){0}b{0}else{0}c",
          "if (a) b{0}else c", "do{0}a{0}while (b)", "do a{0}while{0}(b){0}c", "do a; while (b){0}c", "do ; while (a){0}(b)", "do {{}} while (a){0}[b]", "while{0}(a){0}b", "for{0}({0}a{0};{0}b{0};{0}c{0}){0}d", "for (a{0}b; c) d", "for (;;){0}a{0}b", "for (var a{0}in{0}b){0}c", "function{0}a{0}({0}){0}{{{0}}}{0}b",
          "class{0}a{0}{{{0}b{0}({0}){0}{{{0}}}{0}}}{0}c", "class a {{ b = c{0}d() {{}} }}", "class a {{ b = c{0}[d]() {{}} }}", "class a {{ b() {{}}{0}c() {{}} }}", "class a {{ static{0}b() {{}} }}", "class a {{ get{0}b() {{}} }}", "class a {{ b{0}= c }}", "class a {{ b = c{0}}}", "class a {{ b = c{0}static d() {{}} }}", "switch (a) {{ case b:{0}c{0}case d:{0}e{0}}}",
          "switch (a) {{ default: b{0}}}", "try{0}{{}}{0}catch{0}(a){0}{{}}{0}finally{0}{{}}{0}b", "a{0}:{0}b", "debugger{0}a", "debugger{0}", "debugger{0};a", "import 'a'{0}b", "import a{0}from{0}'b'{0}c", "import{0}{{a{0}as{0}b}}{0}from 'c'{0}d", "import *{0}as a{0}from 'b'{0}c", "import{0}(a){0}b", "{{a{0}b}}", "{{a{0}}}", "{{return{0}}}", "{{return a{0}}}", "{{break{0}}}", "{{a{0};b}}",
          "() => {{ return{0}a{0}b }}", "() => {{{0}}}{0}a", "a => b{0}c", "a = function () {{}}{0}b", "a = function () {{}}{0}(b)", "a = class {{}}{0}b", "a = {{}}{0}b", "a = []{0}b", "a = []{0}[b]", "a = `b`{0}c", "a = `b`{0}`c`", "a = /b/{0}c", "a = /b/{0}g", "a = 1{0}b", "a = 1{0}.5", "a = 'b'{0}c", "a = this{0}b", "a = null{0}b", "a = b.c{0}d", "a = b(){0}c",
          "a = b(){0}{{}}", "a{0}{{}}", "a{0}if (b) c", "a{0}for (;;) b", "a{0}function b() {{}}", "a{0}class b {{}}", "a{0}var b", "a{0}return", "a{0}import 'b'", "a{0}import(b)", "a{0}new b", "a{0}!b", "a{0}~b", "a{0}typeof b", "a{0}void b", "a{0}this", "a{0}1", "a{0}'b'", "a{0}...b", "a{0})", "a{0}]", "(a{0})", "[a{0}]", "f(a{0})", "f(a{0}b)", "if (a{0}) b", "if (a{0}b) c", "`${{a{0}}}`", "`${{a{0}b}}`",
          "(a{0})b", "if (a) b{0})", "new a{0}(b)", "new{0}a", "new a{0}b", "new.target{0}a", "typeof{0}a{0}b", "delete{0}a{0}b", "a{0}+ +b", "a +{0}+b", "a{0}++\nb", "a++{0}b", "a++{0}++b", "a--{0}--b", "a +{0}++b", "a{0}as", "a{0}of", "of{0}a", "async{0}a", "get{0}a", "let{0}", "yield{0}a", "export{0}a"]
GAPS = ["", " ", "\n", ";", "\n\n", "\r\n", "/**/", "/*\n*/", "// c\n", " /* a */ // b\n", "/* \n */ ", ";\n", "\n;", "\t", " /* a */ ", "/*\r\n*/", "/* a\nb */", "\u2028".replace("\u2028", " \n ")]


def asi_inside(part):
    def gen():
        for t in INSIDE:
            for g in GAPS:
                yield t.format(g)
            for g in GAPS[1:6]:
                yield "x\n" + t.format(g) + "\ny"
                yield "{" + t.format(g) + "}"
                yield "if (x) " + t.format(g)
                yield "function f() {" + t.format(g) + "}"
    return every(gen(), part)


def comments(part, length=3):
    """every short comment between what a line break separates, and two of them after each other"""
    def gen():
        bodies = ["".join(x) for n in range(length + 1) for x in itertools.product("*/\n aé", repeat=n)]
        for b in bodies:
            if "*/" in b:
                continue
            for g in ("/*%s*/" % b, "//%s\n" % b, " /*%s*/ /*%s*/ " % (b, b[::-1] if "*/" not in b[::-1] else "")):
                yield "a %s b" % g
                yield "return%sa" % g
                yield "a%s++b" % g
        for b in bodies[:259]:
            if "*/" not in b:
                yield "x\n/*%s*/\ny" % b
                yield "a/*%s*/\n//%s\nb" % (b, b)
                yield "break/*%s*/a" % b
                yield "{a/*%s*/}" % b
                yield "do a;while(b)/*%s*/c" % b
    return every(gen(), part)


def stars(part, length=4):
    """every comment of stars, slashes, line breaks and letters: whatever its text, it separates as a space or as a line break does"""
    bodies = ["".join(x) for n in range(length + 1) for x in itertools.product("*/\nx", repeat=n)] + \
        [x + "*" * k + y for k in range(5, 18) for x in ("", "x", "\n", " ") for y in ("", "\n", " ", "x\n", "\nx", "é")]
    bodies = [b for b in bodies if "*/" not in b]
    broken = [["a", "b"], ["a", "++b"], ["a", "--", "b"], ["break", "a"], ["return", "a"], ["throw a", "b"], ["var a", "b"], ["a => b", "c"], ["do a; while (b)", "c"], ["a", "++", "c"]]
    even = [["var", "a"], ["a", "+", "b"], ["if", "(", "a", ")", "b"], ["new", "a", "(", ")"], ["function", "f", "(", ")", "{", "}"], ["a", "=>", "b"], ["a", "=", "/x/"]]

    def gen():
        lines = [b for b in bodies if "\n" in b]
        flat = [b for b in bodies if "\n" not in b]
        for tokens, plain, some in [(t, "\n", lines) for t in broken] + [(t, " ", lines) for t in even] + [(t, " ", flat) for t in even]:
            for at in range(1, len(tokens)):
                before, after = " ".join(tokens[:at]), " ".join(tokens[at:])
                texts = [before + "%s" + after if (k + at) % 2 else before + " %s " + after for k in range(len(some))]
                texts = [t % ("/*%s*/" % b) for t, b in zip(texts, some)]
                if plain == "\n":
                    texts += [before + ("//%s\n" % b) + after for b in flat]
                for i in range(0, len(texts), 12):
                    yield [before + plain + after] + texts[i:i + 12]
    return every(gen(), part)


def omitted(rng, n):
    """programs from which semicolons are left out or replaced by line breaks, and into which some are put"""
    for _ in range(n):
        t = Gen(rng).program(rng.choice([1, 2, 2, 3]))
        out = []
        for x in t:
            if x == ";":
                r = rng.random()
                if r < 0.35:
                    out.append(NL)
                    continue
                if r < 0.5:
                    continue
            elif rng.random() < 0.02:
                out.append(rng.choice([";", NL, NL]))
            out.append(x)
        yield lay(out, rng, rng.choice(["tight", "plain", "mixed"]))


def separated(part):
    """every construct of the statement list with every gap between its tokens, as layouts of one program"""
    gaps = [" ", "\t", "  ", "/**/ ", " /* a */ ", "\r", "\x0b", " /* \\ ' \" ` */ "]

    def gen():
        for s in STATEMENTS + [h.replace("{{", "{").replace("}}", "}").replace("{0}", "a") for h in BODIES + HOLES + PATTERN_HOLES] + [e.format() for e in EXPRS]:
            if "'" in s or "`" in s or "/" in s or "\n" in s:
                continue
            yield [s] + [s.replace(" ", g) for g in gaps]
            yield [s, g_around(s, " "), g_around(s, "/* a */"), g_around(s, "\t")]
    return every(gen(), part)


def g_around(s, g):
    """a gap on both sides of every bracket, comma and semicolon"""
    out = ""
    for ch in s:
        out += g + ch + g if ch in "(){}[],;" else ch
    return out


# -- arrow functions ------------------------------------------------------------------------------------
ARROWS = ["() => a", "a => a", "(a, b) => a", "(a = b) => c", "(a = b => c) => d", "() => {{}}", "a => {{ return a }}", "() => ({{}})", "() => ({{a: b}})", "() => [a]", "() => (a, b)", "() => a ? b : c", "() => a = b", "() => () => a", "() => {{ () => a }}", "a => b => c => d",
          "() => function () {{ return () => a }}", "() => class {{ a() {{ () => b }} }}", "() => `${{() => a}}`", "() => a(() => b)", "() => ({{a: () => b, c() {{ return () => d }}}})", "() => (() => a)()", "() => this", "() => {{ if (a) return () => b; else return () => c }}", "() => new a", "() => a`b`", "() => {{ a; b; c }}"]


def arrows_in_positions(part):
    return every((h.format("(" + a.format() + ")") for a in ARROWS for h in HOLES), part)


class Arrowy(Gen):
    def expr(self, d, level=0):
        if d > 0 and self.r.random() < 0.35:
            a = self.arrow(d - 1)
            return a if level >= 0 and self.r.random() < 0.3 else ["("] + a + [")"]
        return Gen.expr(self, d, level)


def arrow_programs(rng, n):
    for _ in range(n):
        yield lay(Arrowy(rng).program(rng.choice([1, 2, 3])), rng, style(rng))


# -- words in places of names ------------------------------------------------------------------------------
NAMED = KEYWORDS + ["of", "as", "from", "get", "set", "async", "await", "target", "constructor", "__proto__", "prototype", "eval",
                    "arguments", "require", "module", "self", "NaN", "Infinity", "toString", "length", "name", "use", "strict", "Static",
                    "$", "_", "$_", "a1", "A", "Z", "z9", "ab", "abc", "abcd", "abcde", "abcdef", "abcdefg", "abcdefgh", "abcdefghi",
                    "abcdefghijklmno", "abcdefghijklmnop", "abcdefghijklmnopq", "a" * 31, "a" * 32, "a" * 33, "é", "aé", "漢字", "𝒳y", "ſ",
                    "\\u0061", "a\\u0062", "_a", "__a", "_ab", "$a", "a_", "a$", "aB", "Ab", "AB", "a_b", "é1", "_é", "$é", "_1", "$1", "ina", "inn", "newa", "ofa", "asa", "froma", "geta", "dow", "iff", "elsey"]
PLACES = ["{0}", "{0};", "{0} = 1", "{0}++", "++{0}", "f({0})", "f(a, {0})", "f(...{0})", "{0}()", "{0}.a", "a.{0}", "a.{0}.b()", "a.{0} = b", "a. {0}", "a\n.{0}",
          "{0}[a]", "a[{0}]", "{0}`b`", "`${{{0}}}`", "new {0}", "new {0}(a)", "new a.{0}", "new.{0}", "-{0}", "typeof {0}", "{0} in a", "a in {0}", "a + {0}", "{0} + a",
          "a ? {0} : b", "{0} ? a : b", "a ? b : {0}", "{0} => a", "a => {0}", "({0}) => a", "({0}, a) => b", "({0} = a) => b", "(a = {0}) => b", "[{0}]", "[a, {0}]",
          "[...{0}]", "x = {{{0}}}", "x = {{a, {0}}}", "x = {{{0}: a}}", "x = {{a: {0}}}", "x = {{{0}() {{}}}}", "x = {{[{0}]: a}}", "x = {{...{0}}}",
          "var {0}", "let {0} = a", "const a = {0}", "var a, {0}", "var [{0}] = a", "var [a = {0}] = b", "var {{{0}}} = a", "var {{{0}: a}} = b", "var {{a: {0}}} = b",
          "function {0}() {{}}", "function a({0}) {{}}", "function a(b, {0} = c) {{}}", "function a(...{0}) {{}}", "function a() {{ return {0} }}", "x = function {0}() {{}}",
          "function* {0}() {{}}", "class {0} {{}}", "class a extends {0} {{}}", "x = class {0} {{}}", "class a {{ {0}() {{}} }}", "class a {{ {0} = b }}", "class a {{ static {0}() {{}} }}",
          "class a {{ static {0} = b }}", "class a {{ get {0}() {{}} }}", "class a {{ set {0}(b) {{}} }}", "class a {{ static get {0}() {{}} }}", "class a {{ [{0}]() {{}} }}",
          "{0}: a", "{0}: for (;;) break {0}", "a: for (;;) continue {0}", "break {0}", "for ({0} in a) b", "for ({0} of a) b", "for (var {0} of a) b", "for (let {0} in a) b",
          "for ({0};;) b", "for (;{0};{0}) b", "try {{}} catch ({0}) {{}}", "switch ({0}) {{ case {0}: {0} }}", "throw {0}", "return {0}", "if ({0}) {0}; else {0}",
          "import {0} from 'm'", "import * as {0} from 'm'", "import {{{0}}} from 'm'", "import {{{0} as a}} from 'm'", "import {{a as {0}}} from 'm'", "import a, {{{0}}} from 'm'",
          "import {{a {0} b}} from 'm'", "import a {0} 'm'", "import * {0} a from 'm'", "for (a {0} b) c", "{0}\na", "a\n{0}", "{0} a", "a {0}", "class a {{ {0} b() {{}} }}"]


def words(part):
    """words of every kind in every place of a name"""
    return every((p.format(w) for p in PLACES for w in NAMED), part)


# -- names -----------------------------------------------------------------------------------------------
def many_names(part, more):
    def gen():
        for n in [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300] + ([500, 1000, 2000] if more else []):
            for f in ["a%d", "x%d_long_name_%d", "n%06d", "é%d", "%dz"]:
                g = lambda i: ("_" if f[0] == "%" else "") + f.replace("%d", str(i), 1).replace("%06d", "%06d" % i).replace("%d", str(i * 7))
                names = [g(i) for i in range(n)]
                yield "var " + ", ".join(names + ["z"])
                yield ";".join(names)
                yield "function f(%s) { return %s }" % (", ".join(names), " + ".join(names + ["1"]))
                yield "f(%s); {let %s; g(%s)}" % (", ".join(names), ", ".join(names + ["z"]), ", ".join(names))
                yield "".join("{let %s; %s}" % (x, x) for x in names)
                yield "".join("function %s() { %s }" % (x, x) for x in names)
                yield ";".join(names + list(reversed(names)) + names[::2])
    return every(gen(), part)


# -- literals --------------------------------------------------------------------------------------------
def numerals(part):
    def gen():
        for v in list(range(0, 40)) + [2 ** k + d for k in range(5, 70) for d in (-1, 0, 1)] + [10 ** k + d for k in range(1, 25) for d in (-1, 0, 1)]:
            if v < 0:
                continue
            for f in ["%d", "0x%x", "0X%X", "0o%o", "0O%o"]:
                yield "x = " + f % v
            yield "x = 0b" + bin(v)[2:]
            yield "x = 0B" + bin(v)[2:]
            yield "[%d, %d.0, %d.5, %d., %de0, %de1, %de+2, %dE-3, .%d, 0%d, 00%d]" % ((v,) * 11)
        for m in ["0", "1", "9", "12", "1.5", "0.1", "123.456", ".5", ".001", "5.", "1.0", "100", "0.000001", "99999", "1.7976931348623157", "2.5"]:
            for e in list(range(0, 25)) + [50, 100, 200, 290, 299]:
                for sign in ["e", "E", "e+", "e-"]:
                    yield "x = %s%s%d" % (m, sign, e)
        # halfway between two doubles, and next to that
        for k in (52, 53, 60, 62, 63, 64, 65, 70, 100, 200, 500, 970):
            for m in (2 ** 52, 2 ** 52 + 1, 2 ** 53 - 1, 0x1555555555555A, 0x1555555555555B):
                for d in (-1, 0, 1):
                    v = (2 * m + 1) * 2 ** (k - 52) + d
                    for f in ["0x%x", "0X%X", "0o%o", "%d", "%d.", "%de0", "%d.0e-0"]:
                        yield "x = " + f % v
                    yield "x = 0b" + bin(v)[2:]
                    yield "x = %d.%de%d" % (v // 10 ** 9, v % 10 ** 9, 9)
        big = 2 ** 1024 - 2 ** 970
        for v in (big - 1, big, big + 1, 2 ** 1024, 2 ** 1023):
            for f in ["0x%x", "0o%o", "%d", "%d.0"]:
                yield "x = " + f % v
            yield "x = 0b" + bin(v)[2:]
        for e in list(range(300, 330)) + [340, 399, 400, 401, 999, 1000, 5000, 9999]:
            for m in ["0", "1", "1.7976931348623157", "1.7976931348623159", "4.9", "2.4703282292062327", "2.4703282292062328", "2.2250738585072014", "2.2250738585072011", "000.0001", "999999999999999999999"]:
                for sign in ["e", "e-"]:
                    yield "x = %s%s%d" % (m, sign, e)
        for t in NUMERALS:
            yield "x = " + t
            yield "[%s]" % t
            yield "({%s: %s})" % (t, t)
    return every(gen(), part)


def random_numerals(rng, n):
    for _ in range(n):
        out = []
        for _ in range(rng.choice([1, 2, 5])):
            k = rng.randrange(6)
            if k == 0:
                out.append(str(rng.randrange(10 ** rng.randrange(1, 20))))
            elif k == 1:
                out.append("0x%x" % rng.randrange(16 ** rng.randrange(1, 40)))
            elif k == 2:
                out.append("0o%o" % rng.randrange(8 ** rng.randrange(1, 50)))
            elif k == 3:
                out.append("0b" + bin(rng.randrange(2 ** rng.randrange(1, 140)))[2:])
            elif k == 4:
                out.append("%d.%s" % (rng.randrange(10 ** rng.randrange(1, 9)), "".join(rng.choice("0123456789") for _ in range(rng.randrange(0, 6)))))
            else:
                out.append("%d.%de%s%d" % (rng.randrange(100), rng.randrange(10 ** rng.randrange(1, 30)), rng.choice(["", "+", "-"]), rng.randrange(0, rng.choice([40, 40, 340]))))
        yield "[" + ", ".join(out) + "]"


def literals(part):
    chars = ["a", "\\'", '\\"', "\\\\", "\\n", "é", "漢", "😀", "\t", "\\\n", "/", "//", "/*", "${", "`", "\x01", "\x7f", "\u2028", "<", "&", "\\u0041", " ", "\\x41", "\r", "\x0b", "{", "]"]

    def gen():
        for a in chars + [""]:
            for b in chars:
                yield "x = '%s%s'" % (a, b)
                yield 'x = "%s%s"' % (a, b)
                if not (a + b).count("`"):
                    yield "x = `%s%s`" % (a, b.replace("${", "$"))
                    yield "x = `%s${y}%s${z}%s`" % (a.replace("${", "$"), b.replace("${", "$"), a.replace("${", "$"))
                    yield "t`%s${y}%s`" % (a.replace("${", "$"), b.replace("${", "$"))
                if "\n" not in a + b and (a + b)[0] not in "/*":
                    yield "x = /%s%s/" % (a.replace("/", "\\/"), b.replace("/", "\\/"))
                    yield "x = /[%s]%s/gimuy" % (a.replace("]", "\\]"), b.replace("/", "[/]"))
                yield "({'%s%s': 1})" % (a, b)
                yield "import '%s%s'" % (a, b)
    return every(gen(), part)


# -- reports ------------------------------------------------------------------------------------------------
def boundaries(src):
    out, i = [], 0
    for ch in src:
        out.append(i)
        i += len(ch.encode())
    return out + [i]


def report_small(part):
    """every token range of every short text over letters and line breaks"""
    def gen():
        for n in range(0, 6):
            for t in itertools.product(["a", "\n", "é", "\r\n"], repeat=n):
                src = "".join(t)
                b = boundaries(src)
                for i in range(len(b)):
                    for j in range(i, min(i + 3, len(b))):
                        yield {"family": "short texts", "mode": "report", "src": src, "s": b[i], "e": b[j]}
    return every(gen(), part)


def report_lines(part):
    def gen():
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 95, 96, 97, 98, 99, 100, 101, 102, 103, 120, 996, 997, 998, 999, 1000, 1001, 1002, 1003]:
            for end in ["", "\n", "\n\n", "\r\n"]:
                lines = ["l%d" % i if i % 3 else "" if i % 2 else "  漢x%d" % i for i in range(n)]
                src = "\n".join(lines) + end
                starts = [0]
                for i, c in enumerate(src.encode()):
                    if c == 10:
                        starts.append(i + 1)
                total = len(src.encode())
                for k in sorted(set([0, 1, 2, 3, 4, n // 2, n - 4, n - 3, n - 2, n - 1, n, n + 1, 6, 7, 8, 9, 96, 97, 98, 99])):
                    if 0 <= k < len(starts):
                        s = starts[k]
                        yield {"family": "many lines", "mode": "report", "src": src, "s": s, "e": min(s + 2, total)}
                        if s > 0:
                            yield {"family": "many lines", "mode": "report", "src": src, "s": s - 1, "e": s}
                yield {"family": "many lines", "mode": "report", "src": src, "s": total, "e": total}
    return every(gen(), part)


def report_random(rng, n):
    for _ in range(n):
        lines = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 30])):
            lines.append("".join(rng.choice("ab  \té漢😀𝒳;'\u0301") for _ in range(rng.choice([0, 0, 1, 3, 8, 20]))))
        src = rng.choice(["\n", "\n", "\r\n"]).join(lines) + rng.choice(["", "", "\n", "\n\n"])
        b = boundaries(src)
        i = rng.randrange(len(b))
        j = min(len(b) - 1, i + rng.choice([0, 1, 1, 2, 3, 7, 30]))
        yield {"family": "random texts", "mode": "report", "src": src, "s": b[i], "e": b[j]}


def bad_lines(rng, n):
    """programs of several lines with several errors"""
    for _ in range(n):
        out = []
        for _ in range(rng.choice([1, 2, 3, 5, 9, 12, 20])):
            r = rng.random()
            if r < 0.6:
                out.append(lay(Gen(rng).statement(1), rng, "plain"))
            elif r < 0.7:
                out.append("")
            else:
                out.append(rng.choice(["é )", "漢é ☃", "var 1", "if (", "}", "a b", "  #", "x = = y", "'é' 'b'", "function (", "for (;)", "\t]", "'unterminated"]))
        yield rng.choice(["\n", "\n", "\r\n"]).join(out) + rng.choice(["", "\n"])


# -- what may come next -----------------------------------------------------------------------------------
NEXT = PUNCT + KEYWORDS + [".a", "?.", "a", "of", "as", "from", "get", "set", "async", "'s'", "`t`", "`t${", "}t`", "}t${", "1", "0b1", "1.5", "/x/g", "#",
                          "\\u0062", "\\b", "_", "$", "é", "𠮷", "_b", "B", '"s"', "0", ".5", "@", "é"]
PIECE = re.compile(r"""`(?:[^`$\\]|\\.|\$(?!\{))*(?:`|\$\{)|'[^']*'|"[^"]*"|[A-Za-z0-9_$.\u0080-\uffff]*[A-Za-z0-9_$\u0080-\uffff]"""
                   r"""|>>>=|\.\.\.|===|!==|\*\*=|<<=|>>=|>>>|=>|\+\+|--|\*\*|<<|>>|[<>=!+*/%&^|-]=|&&|\|\||\S""", re.S)


def beginnings(srcs):
    """every beginning of the texts that ends at the end of a token, once"""
    seen = {""}
    for src in srcs:
        for m in PIECE.finditer(src):
            b = src[:m.end()]
            if b not in seen:
                seen.add(b)
                yield b


OPERANDS = (["a " + op + " b" for op in OPERATORS] + [op + " a" for op in UNARIES + ["...", "[...", "f(...", "++", "--"]] +
            ["a" + t for t in TAILS] + [h for h in HEADS] + ["a ? b", "a ? b : c", "a => b", "() => b", "(a) => b", "a => {}", "new a()", "new a.b", "new new a", "new a()()", "new.target",
             "a, b", "(a, b)", "[a, b]", "x = {a: b}", "x = {a}", "x = {...a}", "return a", "throw a", "case_ = a", "var a = b", "for (a", "for (var a = b", "for (a;b", "for (a;b;c", "for (a in b",
             "for (a of b", "if (a", "while (a", "do a", "do a; while (b", "switch (a", "switch (a) { case b", "a[b", "f(a", "f(a, b", "`${a", "`x${a}y${b", "x = {[a", "class A extends b",
             "class A { a = b", "class A { [a", "function f(a = b", "(a = b", "let [a = b", "const {a: b", "import(a", "return -a", "a * -b", "a ** -b", "-a ** b", "a + b * c", "a * b + c",
             "a ? b = c", "a ? b : c = d", "a = b ? c", "a = b => c", "a => b ? c", "typeof typeof a", "! - a", "a b", "a.b(c).d", "a = b = c", "a || b && c", "a ++", "x = function () {}",
             "x = class {}", "function f() {}", "class A {}", "import a", "import {a", "import {a as b", "import * as a", "import a, {b", "import a, * as b", "try {}", "try {} catch (e)",
             "try {} catch (e) {}", "a: b", "break a", "continue a", "debugger", "if (a) b", "if (a) b; else c", "{a}", ";", "return", "break", "continue", "switch (a) {}", "do ; while (a)",
             "switch (a) { default", "switch (a) { case b:", "switch (a) { case b: c"])


def after_operands(part):
    """every token after every kind of operand, on the same line and on the next one"""
    return every((o + s + t for o in dict.fromkeys(OPERANDS) for s in (" ", "\n") for t in NEXT), part)


def after_beginnings(part, between=" "):
    """every token after every beginning of the constructs"""
    def whole():
        yield from (e.format() if "{{" in e else e for e in EXPRS)
        yield from STATEMENTS
        for h in BODIES + PATTERN_HOLES + HOLES:
            yield h.format("b")
        for p in PATTERNS:
            yield "var " + p
        for m in MEMBERS:
            yield "class A { " + m.format("k") + " z() {} }"
            yield "x = { " + m.format("k") + ", z: 1 }"
        for s in SPECIFIERS:
            yield "import " + s + " from 'm'; a"
    return every((b + between + t for b in beginnings(whole()) for t in NEXT), part)


# -- long tokens in programs ------------------------------------------------------------------------------
LONG = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]
LONG_NAMED = ["x = {0};", "f({0}).{0}[{0}]`a`", "let {0} = a, [b, {0}] = c", "function {0}({0}, b = {0}, ...{0}) {{ return {0} }}", "class {0} extends {0} {{ {0}() {{}} static {0} = {0}; get {0}() {{}} }}",
              "{0}: for (;;) {{ break {0} }}", "x = {{ {0}, {0}: {0}, {0}() {{}}, [{0}]: b }}", "import {0}, {{ {0} as b, c as {0}, {0} }} from '{0}'", "({0}, b) => {0}", "{0} => {{ {0} }}", "try {{}} catch ({0}) {{ {0} }}",
              "for (var {0} of {0}) {0}", "const {{ {0}, b: {0} }} = {0}", "a.{0}.{0}()", "new {0}(new.target)", "typeof {0} in {0}"]
LONG_MADE = ["x = {0};", "f({0}, {0})", "({{ a: {0} }})", "a => {0}", "a + {0}", "return {0}"]


def long_tokens(part, more=()):
    """names, numbers, strings, templates, regular expressions and comments of many lengths in programs"""
    def gen():
        for n in itertools.chain(LONG, more):
            for name in ["a" * n, "é" * (n // 2) + "b", "if" * (n // 2) + "_"]:
                for p in LONG_NAMED:
                    if n < 600 or p in LONG_NAMED[:2]:
                        yield p.format(name)
            for t in ["'" + "s" * n + "'", '"' + "é'" * (n // 3) + '"', "`" + "t" * n + "`", "`" + "t" * n + "${a}" + "u" * n + "${b}" + "é" * (n // 2) + "`", "/" + "r" * n + "/g", "/[/" + "é" * (n // 2) + "]/",
                      "'" + "s" * (n - 1) + "\\''", "'" + "s" * (n - 2) + "\\\\'", "1" * min(n, 300) + ".5", "0." + "0" * min(n, 280) + "1", "0x" + "1" * min(n, 60), "/*" + "c" * n + "*/a", "a/*" + "\n" * n + "*/", "a//" + "c" * n + "\n",
                      "a`" + "t" * n + "`", " " * n + "a"]:
                for p in LONG_MADE:
                    if n < 600 or p in LONG_MADE[:2]:
                        yield p.format(t)
    return every(gen(), part)


def report_long(part):
    """tokens of all lengths at all columns of long lines"""
    def gen():
        sizes = [0, 1, 2, 7, 8, 9, 31, 32, 63, 64, 65, 79, 80, 81, 99, 100, 119, 120, 127, 128, 129, 255, 256, 257, 300, 1000, 5000]
        for before in sizes:
            for length in sizes:
                for unit, line in (("a", "%s%s%s"), ("é", "x\n%s%s%s\ny"), ("漢", "\n\n%s%s%s\n\n"), ("\t", "%s%s%s\r\n")):
                    if length and before + length < 6000:
                        pad = unit * before
                        src = line % (pad, "b" * length, ";" * (length % 3))
                        at = src.index("b")
                        s = len(src[:at].encode())
                        yield {"family": "long lines", "mode": "report", "src": src, "s": s, "e": s + length}
    return every(gen(), part)
