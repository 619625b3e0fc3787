"""What each property's check runs: cases, and the records that the specification judges.

A case is a dictionary: family, mode, and the texts and parameters that the mode needs."""
import json, os, random, time

import vt
from families import *

NEED_MODULE = {"print", "text", "walk", "scopes", "transform", "estree", "debug", "module"}
OUTCOMES = ["parse", "print", "walk", "scopes", "transform", "estree", "debug", "module", "reports", "facade"]


def texts(case):
    return case["srcs"] if "srcs" in case else [case["src"]]


# -- from a case to records -------------------------------------------------------------------
def dumps(v):
    return json.dumps(v, ensure_ascii=True)


def body(line):
    """an answer without its identity and closing brace"""
    return line[line.index(",") + 1:-1]


WANT = {"roundtrip": ["parse", "print"], "text": ["parse", "print"], "walk": ["parse", "walk"], "scopes": ["parse", "scopes"],
        "transform": ["parse", "transform"]}


def older(case, req):
    """the module is transformed before anything is asked about it"""
    if case.get("older"):
        req["older"] = True
    return req


def records(shard, case):
    mode = case["mode"]
    src = case.get("src")
    if mode == "lex":
        a = shard.ask(case, {"src": src, "d": case["d"], "want": ["lex"]})
        if a:
            yield '{"ops":["lex"],"d":%s,"S":%s,%s}' % (dumps(case["d"]), dumps(vt.source(src)), body(a))
    elif mode == "parse":
        a = shard.ask(case, {"src": src, "want": ["parse"]})
        if a:
            yield '{"ops":%s,"S":%s,%s}' % (dumps(case["ops"]), dumps(vt.source(src)), body(a))
    elif mode == "shifted":
        pad = case["pad"] * case["by"]
        a = shard.ask(case, {"src": pad + src, "want": ["parse"]})
        if a:
            yield '{"ops":["shifted"],"by":%d,"S":%s,%s}' % (len(pad.encode()), dumps(vt.source(src)), body(a))
    elif mode in ("layouts", "texts"):
        want = ["parse"] if mode == "layouts" else ["parse", "text"]
        parses, printed = [], []
        for s in case["srcs"]:
            a = shard.ask(case, {"src": s, "want": want})
            if not a:
                return
            a = json.loads(a)
            parses.append(a["parse"])
            printed.append(a.get("text"))
        r = {"ops": [mode], "parses": parses}
        if mode == "layouts":
            r["Ss"] = [vt.source(s) for s in case["srcs"]]
        else:
            r["texts"] = [t if isinstance(t, dict) else {"pretty": "", "min": ""} for t in printed]
        yield dumps(r)
    elif mode == "tree":
        want = []
        for op in case["ops"]:
            for w in WANT[op]:
                if w not in want:
                    want.append(w)
        a = shard.ask(case, older(case, {"src": src, "want": want}))
        if a and '"parse":{"ok":true' in a:
            yield '{"ops":%s,%s}' % (dumps(case["ops"]), body(a))
    elif mode == "estree":
        a = shard.ask(case, older(case, {"src": src, "want": ["parse", "estree"]}))
        if a and '"parse":{"ok":true' in a:
            a = json.loads(a)
            yield dumps({"ops": ["estree"], "parse": a["parse"], "doc": vt.document(a["estree"]["c"]), "docp": vt.document(a["estree"]["p"])})
    elif mode == "report":
        a = shard.ask(case, {"src": src, "s": case["s"], "e": case["e"], "want": ["report"]})
        if a:
            yield '{"ops":["report"],"s":%d,"e":%d,"S":%s,%s}' % (case["s"], case["e"], dumps(vt.source(src)), body(a))
    elif mode == "facade":
        a = shard.ask(case, {"src": src, "want": ["parse", "text", "debug", "estree", "facade"]})
        if a:
            a = json.loads(a)
            if isinstance(a["estree"], dict):
                a["estree"] = {k: v.encode("utf-8").decode("latin-1") for k, v in a["estree"].items()}
            a.update(ops=["facade"], S=vt.source(src))
            del a["id"]
            yield dumps(a)
    elif mode == "outcomes":
        views = [v for v in OUTCOMES if not (case.get("light") and v in ("debug", "facade"))]
        a = shard.ask(case, {"src": src, "want": views})
        if a:
            a = json.loads(a)
            p = a["parse"]
            n = len(src.encode())
            yield dumps({"ops": ["outcomes"], "accepted": p["ok"], "nerrs": len(p["errs"]),
                         "inside": all(0 <= e["s"] <= e["e"] <= n for e in p["errs"]),
                         "outcomes": [{"view": v, "out": "rejected" if a[v] == "rejected" else "value"} for v in views]})
    elif mode == "binding":
        yield from called(shard, case)
    elif mode == "history":
        yield from history(shard, case)
    else:
        raise ValueError(mode)


def latin(v):
    """texts as the bytes they consist of"""
    if isinstance(v, str):
        return v.encode("utf-8", "surrogatepass").decode("latin-1")
    return [latin(x) for x in v] if isinstance(v, list) else {k: latin(x) for k, x in v.items()}


def called(shard, case):
    """the calls of a program on two texts, or on one"""
    parses, debugs, estrees = [], [], []
    for s in case["srcs"]:
        a = shard.ask(case, {"src": s, "want": ["parse", "debug", "estree"]})
        if not a:
            return
        a = json.loads(a)
        parses.append(a["parse"])
        debugs.append(a["debug"] if isinstance(a["debug"], dict) else {"c": "", "p": ""})
        estrees.append(latin(a["estree"]) if isinstance(a["estree"], dict) else {"c": "", "p": ""})
    a, why = shard.binding.ask({"id": 0, "srcs": case["srcs"], "calls": case["calls"]})
    if a is None:
        yield {"died": why}
        return
    a = json.loads(a)
    yield dumps({"ops": ["binding"], "Ss": [vt.source(s) for s in case["srcs"]], "parses": parses, "debugs": debugs, "estrees": estrees,
                 "calls": case["calls"], "exports": a["exports"], "answers": latin(a["answers"])})


QUERIES = ["tree", "pretty", "min", "walk", "scopes", "estree", "estreep", "debug", "debugp"]
EMBEDDED = ["ftransform", "fminify", "fdump", "fdumpp", "festree", "festreep"]


def accepted(impl, src):
    a, _ = impl.ask({"id": 0, "src": src, "want": ["reports"]})
    return a is not None and '"reports":[]' in a


def known_answers(srcs, programs):
    """what a process that has worked on nothing else answers: (keys, answers), or why it gives none"""
    keys, given = [], []
    for k, src in enumerate(srcs, 1):
        steps = []
        def ask(key, *ops):
            steps.extend({"op": op, "m": 0, "src": 0} for op in ops)
            keys.append(key)
            at.append(len(steps) - 1)
        at = []
        if k in programs:
            ask(["tree", k, 0], "parse")
            for q in QUERIES[1:]:
                ask([q, k, 0], "parse", q)
            ask(["tree", k, 1], "parse", "transform")
            for q in QUERIES[1:]:
                ask([q, k, 1], "parse", "transform", q)
        else:
            ask(["errors", k, 0], "parse")
            ask(["report", k, 0], "ftransform")
        impl = vt.Impl()
        a, why = impl.ask({"id": 0, "sources": [src], "threads": [steps], "want": ["history"]})
        impl.stop()
        if a is None:
            return None, why
        answers = json.loads(a)["history"]
        if isinstance(answers, dict):
            return None, "panic: " + answers["panic"]
        given.extend(answers[0][i] for i in at)
    keys.append(["drop", 0, 0])
    given.append(EMPTY)
    return keys, given


EMPTY = "cbf29ce48422232584222325cbf29ce4"      # the digest of no text


def history(shard, case):
    srcs = case["srcs"]
    threads = [[{"op": op, "m": m, "src": s - 1 if s else 0} for op, m, s in t] for t in case["threads"]]
    keys, given = known_answers(srcs, case["programs"])
    if keys is None:
        yield {"died": given}
        return
    for _ in range(case.get("times", 1)):
        a, why = shard.impl.ask({"id": 0, "sources": srcs, "threads": threads, "want": ["history"]})
        answers = None if a is None else json.loads(a)["history"]
        if answers is None or isinstance(answers, dict) or any(len(x) != len(y) for x, y in zip(answers, threads)):
            yield {"died": why or "panic"}
            return
        yield dumps({"programs": case["programs"], "keys": keys, "given": given,
                     "steps": [[i, op, m, s] for i, t in enumerate(case["threads"], 1) for op, m, s in t],
                     "answers": [x for t in answers for x in t]})


# -- the cases of a property --------------------------------------------------------------------
class Context:
    def __init__(self, shard, shards, seed, tier, round_, cwd=None):
        self.cwd = cwd
        self.quick = tier == "quick"
        self.shard, self.shards, self.seed = shard, shards, seed
        self.rng = random.Random("%d/%d/%d" % (seed, shard, round_))
        self.round = round_

    def n(self, quick):
        """how many random cases this shard makes in a round"""
        return max(1, quick // self.shards)

    def part(self, stride=1, thorough=1):
        """the share of a systematic family: one in stride of it when quick, later rounds take the rest"""
        stride = stride if self.quick else thorough
        at = (self.seed + self.round) % stride
        return (self.shard + self.shards * at, self.shards * stride)


def tag(family, mode, srcs, **more):
    for s in srcs:
        c = {"family": family, "mode": mode}
        if isinstance(s, list):
            c["srcs"] = s
        else:
            c["src"] = s
        c.update(more)
        yield c


def lexed(ctx, family, srcs, both=False):
    for s in srcs:
        k = s.count("/") + s.count("}")
        if both and k:
            for d in ([False] * k, [True] * k):
                yield {"family": family, "mode": "lex", "src": s, "d": d}
        else:
            yield {"family": family, "mode": "lex", "src": s, "d": [ctx.rng.random() < 0.4 for _ in range(k)]}


def c01(ctx):
    r = ctx.rng
    if ctx.round == 0 or not ctx.quick:
        texts = vt.scanned(os.path.join(os.path.dirname(os.path.dirname(ctx.cwd)), "model"))
        for src, d in every(texts, ctx.part(1, 1)):
            yield {"family": "read by the specification's scanner", "mode": "lex", "src": src, "d": d}
        yield from lexed(ctx, "all short strings", short_strings(3 if ctx.quick else 4, ctx.part(1, 8)), both=True)
        yield from lexed(ctx, "token pairs", token_pairs(ctx.part(3, 1)))
        yield from lexed(ctx, "keyword neighbours", keyword_neighbours(ctx.part()))
        yield from lexed(ctx, "edges", edges(ctx.part()))
        yield from lexed(ctx, "characters", characters(ctx.part()))
        yield from lexed(ctx, "runs", runs(ctx.part(2, 1), (65535, 65536, 65537, 70000)))
    yield from lexed(ctx, "token strings", token_strings(r, ctx.n(6000)))
    yield from lexed(ctx, "random characters", random_chars(r, ctx.n(8000)))
    yield from lexed(ctx, "programs", programs(r, ctx.n(600)))
    yield from lexed(ctx, "mutated programs", char_mutated(r, ctx.n(1500)))
    yield from lexed(ctx, "truncated programs", truncated(r, ctx.n(800)))


def c02(ctx):
    r = ctx.rng
    m = "outcomes"
    if ctx.round == 0 or not ctx.quick:
        yield from tag("words", m, words(ctx.part(4, 1)))
        yield from tag("all short strings", m, short_strings(2 if ctx.quick else 3, ctx.part(1, 2)))
        yield from tag("token sequences", m, soup_exhaustive(3, ctx.part(6, 1)))
        yield from tag("constructs in positions", m, constructs_in_positions(ctx.part(6, 1)))
        yield from tag("statements in positions", m, statements_in_positions(ctx.part(2, 1)))
        yield from tag("patterns in positions", m, patterns_in_positions(ctx.part()))
        yield from tag("class members", m, class_members(ctx.part(3, 1)))
        yield from tag("imports", m, imports(ctx.part(3, 1)))
        yield from tag("token pairs", m, token_pairs(ctx.part(12, 2)))
        yield from tag("edges", m, edges(ctx.part(2, 1)))
        yield from tag("characters", m, characters(ctx.part()))
        yield from tag("neighbours", m, neighbours(ctx.part(45, 4)))
        # the standard library indents the readable debug format at a cubic cost in the depth
        yield from tag("lists", m, lists(ctx.part(1, 1), () if ctx.quick else (1000, 5000)), light=True)
        for src in runs(ctx.part(4, 1), (65536, 70000)):
            # after an operand, such a regular expression is a chain of divisions
            yield from tag("runs", m, [src], light=src.count("\\/") > 60)
    yield from tag("random characters", m, random_chars(r, ctx.n(6000)))
    yield from tag("token soup", m, soup(r, ctx.n(6000)))
    yield from tag("mutated programs", m, mutated(r, ctx.n(5000)))
    yield from tag("mutated characters", m, char_mutated(r, ctx.n(3000)))
    yield from tag("every beginning of a program", m, truncations(r, ctx.n(64)))
    yield from tag("programs", m, programs(r, ctx.n(1500)))
    yield from tag("token strings", m, token_strings(r, ctx.n(2000)))


def derived(ctx, stride=1, thorough=1, pairs=False):
    """programs that the specification derived, in one printed form or as pairs of both"""
    if not hasattr(ctx, "programs"):
        ctx.programs = vt.derived(os.path.join(os.path.dirname(os.path.dirname(ctx.cwd)), "model"))
    i, n = ctx.part(stride, thorough)
    for k, p in enumerate(ctx.programs[i::n]):
        yield list(p) if pairs else p[k % 2]


def structure(ctx, family, srcs):
    return tag(family, "parse", srcs, ops=["structure"])


def c03(ctx):
    r = ctx.rng
    if ctx.round == 0 or not ctx.quick:
        yield from structure(ctx, "words", words(ctx.part(3, 1)))
        yield from structure(ctx, "derived from the specification", derived(ctx, 2))
        yield from structure(ctx, "operator pairs", operator_pairs(ctx.part()))
        yield from structure(ctx, "operator triples", operator_triples(ctx.part(4, 1)))
        yield from structure(ctx, "constructs in positions", constructs_in_positions(ctx.part(2, 1)))
        yield from structure(ctx, "lists", lists(ctx.part(2, 1)))
        yield from structure(ctx, "signs", signs(ctx.part(2, 1)))
        yield from structure(ctx, "neighbours", neighbours(ctx.part(45, 2)))
        yield from structure(ctx, "after operands", after_operands(ctx.part(2, 1)))
    yield from structure(ctx, "expressions", expression_programs(r, ctx.n(5000), 3))
    yield from structure(ctx, "deep expressions", expression_programs(r, ctx.n(400), 5))
    yield from structure(ctx, "programs", programs(r, ctx.n(800)))


def c04(ctx):
    r = ctx.rng
    if ctx.round == 0 or not ctx.quick:
        yield from structure(ctx, "words", words(ctx.part()))
        yield from structure(ctx, "characters", characters(ctx.part()))
        yield from structure(ctx, "derived from the specification", derived(ctx, 2))
        yield from structure(ctx, "statements in positions", statements_in_positions(ctx.part()))
        yield from structure(ctx, "statement pairs", statement_pairs(ctx.part(40, 4)))
        yield from structure(ctx, "patterns in positions", patterns_in_positions(ctx.part()))
        yield from structure(ctx, "class members and properties", class_members(ctx.part()))
        yield from structure(ctx, "imports", imports(ctx.part()))
        yield from structure(ctx, "long tokens", long_tokens(ctx.part(4, 1), () if ctx.quick else (65535, 65536, 70000)))
        yield from structure(ctx, "lists", lists(ctx.part(1, 1), () if ctx.quick else (1000,)))
        yield from structure(ctx, "constructs in positions", constructs_in_positions(ctx.part(8, 1)))
        yield from structure(ctx, "after beginnings", after_beginnings(ctx.part(4, 1)))
    yield from structure(ctx, "programs", programs(r, ctx.n(3000)))
    yield from structure(ctx, "deep programs", programs(r, ctx.n(100), 4))


def c05(ctx):
    r = ctx.rng
    if ctx.round == 0 or not ctx.quick:
        yield from structure(ctx, "statement pairs", statement_pairs(ctx.part(7, 1)))
        yield from structure(ctx, "breaks inside statements", asi_inside(ctx.part()))
        yield from structure(ctx, "comments", comments(ctx.part()))
        yield from structure(ctx, "imports", imports(ctx.part(3, 1)))
        yield from structure(ctx, "after operands", after_operands(ctx.part(2, 1)))
        yield from structure(ctx, "after beginnings on the next line", after_beginnings(ctx.part(2, 1), "\n"))
    yield from structure(ctx, "programs with semicolons omitted", omitted(r, ctx.n(5000)))
    yield from structure(ctx, "programs", programs(r, ctx.n(1000), styles=["wild", "mixed"]))


def c06(ctx):
    r = ctx.rng
    f = lambda family, srcs: tag(family, "parse", srcs, ops=["errors"])
    if ctx.round == 0 or not ctx.quick:
        yield from f("words", words(ctx.part(1, 1)))
        yield from f("token sequences", soup_exhaustive(3, ctx.part(2, 1)))
        yield from f("statement pairs", statement_pairs(ctx.part(40, 4)))
        yield from f("patterns in positions", patterns_in_positions(ctx.part()))
        yield from f("class members and properties", class_members(ctx.part()))
        yield from f("imports", imports(ctx.part()))
        yield from f("constructs in positions", constructs_in_positions(ctx.part(4, 1)))
        yield from f("statements in positions", statements_in_positions(ctx.part(2, 1)))
        yield from f("token pairs", token_pairs(ctx.part(12, 1)))
        yield from f("lists", lists(ctx.part(4, 1)))
        yield from f("edges", edges(ctx.part()))
        yield from f("characters", characters(ctx.part(1, 1)))
        yield from f("neighbours", neighbours(ctx.part(60, 4)))
        yield from f("after operands", after_operands(ctx.part(1, 1)))
        yield from f("after beginnings", after_beginnings(ctx.part(1, 1)))
    yield from f("mutated programs", mutated(r, ctx.n(8000)))
    yield from f("mutated characters", char_mutated(r, ctx.n(3000)))
    yield from f("token soup", soup(r, ctx.n(4000)))
    yield from f("truncated programs", truncated(r, ctx.n(2000)))
    yield from f("every beginning of a program", truncations(r, ctx.n(24)))


def c07(ctx):
    r = ctx.rng
    f = lambda family, srcs: tag(family, "parse", srcs, ops=["positions"])
    if ctx.round == 0 or not ctx.quick:
        yield from f("words", words(ctx.part(2, 1)))
        yield from f("characters", characters(ctx.part(2, 1)))
        yield from f("derived from the specification", derived(ctx, 2))
        yield from f("constructs in positions", constructs_in_positions(ctx.part(4, 1)))
        yield from f("statements in positions", statements_in_positions(ctx.part()))
        yield from f("statement pairs", statement_pairs(ctx.part(60, 6)))
        yield from f("patterns in positions", patterns_in_positions(ctx.part()))
        yield from f("class members and properties", class_members(ctx.part()))
        yield from f("imports", imports(ctx.part()))
        yield from f("long tokens", long_tokens(ctx.part(4, 1)))
        yield from f("lists", lists(ctx.part(2, 1)))
        yield from f("operator pairs", operator_pairs(ctx.part(4, 1)))
        i, n = ctx.part()
        for by in [2 ** 20 - 1, 2 ** 20, 2 ** 24 - 3, 2 ** 24, 2 ** 24 + 1, 2 ** 25 + 5, 2 ** 22 + 1, 2 ** 23 - 1][i::n]:
            for s in programs(r, 2):
                yield {"family": "behind much padding", "mode": "shifted", "src": s, "pad": " ", "by": by}
    yield from f("programs", programs(r, ctx.n(3000)))
    for s in programs(r, ctx.n(400)):
        by = r.choice([1, 2, 3, 7, 100, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 1000003])
        yield {"family": "behind padding", "mode": "shifted", "src": s, "pad": r.choice([" ", "\n", " \n", "/**/", "// é\n"]), "by": by}


def c08(ctx):
    r = ctx.rng
    yield from tag("layouts", "layouts", layouts(r, ctx.n(2200)))
    yield from tag("redundant parentheses", "layouts", parenthesised(r, ctx.n(2200)))
    if ctx.round == 0 or not ctx.quick:
        yield from tag("derived from the specification", "layouts", derived(ctx, 2, pairs=True))
        yield from tag("layouts of statements", "layouts", separated(ctx.part()))
        yield from tag("comments of all texts", "layouts", stars(ctx.part(1, 1), 4 if ctx.quick else 6))
        yield from structure(ctx, "operator pairs", operator_pairs(ctx.part(3, 1)))


def c09(ctx):
    r = ctx.rng
    f = lambda family, srcs: tag(family, "tree", srcs, ops=["roundtrip"])
    if ctx.round == 0 or not ctx.quick:
        yield from f("words", words(ctx.part(2, 1)))
        yield from f("characters", characters(ctx.part(2, 1)))
        yield from f("derived from the specification", derived(ctx, 2))
        yield from f("constructs in positions", constructs_in_positions(ctx.part(2, 1)))
        yield from f("operator pairs", operator_pairs(ctx.part(2, 1)))
        yield from f("signs", signs(ctx.part()))
        yield from f("neighbours", neighbours(ctx.part(45, 4)))
        yield from f("operator triples", operator_triples(ctx.part(12, 1)))
        yield from f("statements in positions", statements_in_positions(ctx.part(1, 1)))
        yield from f("statement pairs", statement_pairs(ctx.part(80, 8)))
        yield from f("patterns in positions", patterns_in_positions(ctx.part()))
        yield from f("class members and properties", class_members(ctx.part()))
        yield from f("imports", imports(ctx.part()))
        yield from f("long tokens", long_tokens(ctx.part(4, 1)))
        yield from f("lists", lists(ctx.part(3, 1)))
    yield from f("expressions", expression_programs(r, ctx.n(1500), 3))
    yield from f("programs", programs(r, ctx.n(1000)))


def c10(ctx):
    r = ctx.rng
    f = lambda family, srcs: tag(family, "tree", srcs, ops=["text"])
    if ctx.round == 0 or not ctx.quick:
        yield from f("words", words(ctx.part(2, 1)))
        yield from f("characters", characters(ctx.part(2, 1)))
        yield from f("derived from the specification", derived(ctx, 3))
        yield from f("constructs in positions", constructs_in_positions(ctx.part(3, 1)))
        yield from f("operator pairs", operator_pairs(ctx.part(3, 1)))
        yield from f("signs", signs(ctx.part(3, 1)))
        yield from f("neighbours", neighbours(ctx.part(60, 4)))
        yield from f("statements in positions", statements_in_positions(ctx.part()))
        yield from f("statement pairs", statement_pairs(ctx.part(80, 8)))
        yield from f("patterns in positions", patterns_in_positions(ctx.part()))
        yield from f("class members and properties", class_members(ctx.part()))
        yield from f("imports", imports(ctx.part()))
        yield from f("long tokens", long_tokens(ctx.part(4, 1)))
        yield from f("lists", lists(ctx.part(3, 1)))
    yield from f("expressions", expression_programs(r, ctx.n(1500), 3))
    yield from f("programs", programs(r, ctx.n(1200)))
    yield from tag("layouts", "texts", layouts(r, ctx.n(1000)))
    if ctx.round == 0 or not ctx.quick:
        yield from tag("transformed arrows in positions", "tree", arrows_in_positions(ctx.part(3, 1)), ops=["text"], older=True)
    yield from tag("transformed programs", "tree", arrow_programs(r, ctx.n(500)), ops=["text"], older=True)


def visiting(op):
    def plan(ctx):
        r = ctx.rng
        f = lambda family, srcs: tag(family, "tree", srcs, ops=[op])
        if ctx.round == 0 or not ctx.quick:
            yield from f("words", words(ctx.part(2, 1)))
            yield from f("characters", characters(ctx.part(2, 1)))
            yield from f("derived from the specification", derived(ctx, 2))
            yield from f("constructs in positions", constructs_in_positions(ctx.part(3, 1)))
            yield from f("statements in positions", statements_in_positions(ctx.part()))
            yield from f("patterns in positions", patterns_in_positions(ctx.part()))
            yield from f("class members and properties", class_members(ctx.part()))
            yield from f("imports", imports(ctx.part(3, 1)))
            yield from f("long tokens", long_tokens(ctx.part(4, 1)))
            yield from f("lists", lists(ctx.part(2, 1)))
            yield from f("statement pairs", statement_pairs(ctx.part(120, 12)))
            if op == "transform":
                yield from f("arrows in positions", arrows_in_positions(ctx.part()))
            if op == "scopes":
                yield from f("many names", many_names(ctx.part(), not ctx.quick))
        yield from f("expressions", expression_programs(r, ctx.n(1500), 3))
        yield from f("programs", programs(r, ctx.n(3000)))
        if op != "transform":
            if ctx.round == 0 or not ctx.quick:
                yield from tag("transformed arrows in positions", "tree", arrows_in_positions(ctx.part(3, 1)), ops=[op], older=True)
            yield from tag("transformed programs", "tree", arrow_programs(r, ctx.n(600)), ops=[op], older=True)
        if op == "transform":
            yield from f("programs with many arrows", arrow_programs(r, ctx.n(1200)))
    return plan


def c14(ctx):
    r = ctx.rng
    f = lambda family, srcs: tag(family, "estree", srcs)
    if ctx.round == 0 or not ctx.quick:
        yield from f("words", words(ctx.part(2, 1)))
        yield from f("characters", characters(ctx.part(2, 1)))
        yield from f("derived from the specification", derived(ctx, 5))
        yield from f("constructs in positions", constructs_in_positions(ctx.part(5, 1)))
        yield from f("statements in positions", statements_in_positions(ctx.part(2, 1)))
        yield from f("patterns in positions", patterns_in_positions(ctx.part()))
        yield from f("class members and properties", class_members(ctx.part()))
        yield from f("imports", imports(ctx.part(3, 1)))
        yield from f("long tokens", long_tokens(ctx.part(4, 1)))
        yield from f("lists", lists(ctx.part(5, 1)))
        yield from f("statement pairs", statement_pairs(ctx.part(160, 16)))
        yield from f("operator pairs", operator_pairs(ctx.part(4, 1)))
        yield from f("numerals", numerals(ctx.part()))
        yield from f("strings and regular expressions", literals(ctx.part()))
        yield from tag("transformed arrows in positions", "estree", arrows_in_positions(ctx.part(6, 1)), older=True)
    yield from f("random numerals", random_numerals(r, ctx.n(1500)))
    yield from f("expressions", expression_programs(r, ctx.n(1000), 3))
    yield from f("programs", programs(r, ctx.n(1000)))


def c15(ctx):
    r = ctx.rng
    if ctx.round == 0 or not ctx.quick:
        yield from report_small(ctx.part(2, 1))
        yield from report_lines(ctx.part())
        yield from report_long(ctx.part(2, 1))
    yield from report_random(r, ctx.n(6000))


def c17(ctx):
    r = ctx.rng
    f = lambda family, srcs: tag(family, "facade", srcs)
    if ctx.round == 0 or not ctx.quick:
        yield from f("words", words(ctx.part(8, 1)))
        yield from f("characters", characters(ctx.part(2, 1)))
        yield from f("statements in positions", statements_in_positions(ctx.part(3, 1)))
        yield from f("constructs in positions", constructs_in_positions(ctx.part(16, 2)))
        yield from f("token sequences", soup_exhaustive(2, ctx.part(1, 1)))
        yield from f("imports", imports(ctx.part(6, 1)))
        yield from f("long tokens", long_tokens(ctx.part(12, 1)))
        yield from f("class members and properties", class_members(ctx.part(6, 1)))
        yield from f("edges", edges(ctx.part(2, 1)))
    yield from f("programs", programs(r, ctx.n(800)))
    yield from f("mutated programs", mutated(r, ctx.n(2500)))
    yield from f("programs of many lines with errors", bad_lines(r, ctx.n(600)))
    yield from f("truncated programs", truncated(r, ctx.n(600)))


STARTS = ["parse"] + EMBEDDED


def pool(impl, family, good, bad):
    """sources for histories: good accepted ones, then bad rejected ones"""
    yes, no = [], []
    end = time.monotonic() + 60
    for tries, s in enumerate(family):
        if tries > 400 or time.monotonic() > end:
            return None
        (yes if accepted(impl, s) else no).append(s)
        if len(yes) >= good and len(no) >= bad:
            break
    return yes[:good] + no[:bad]


def sources(r, size):
    while True:
        if r.random() < 0.5 and size == "small":
            yield from arrow_programs(r, 1)
        else:
            s = next(iter(programs(r, 1, 1 if size == "small" else 3)))
            s = s if size == "small" else "\n;".join([s] + list(programs(r, {"medium": 8, "large": 150}[size])))
            yield s
            if r.random() < 0.7:
                yield twin(r, s)
        if r.random() < 0.6:
            yield from mutated(r, 1, 1)
        else:
            yield from char_mutated(r, 1, 1)


def twin(r, s):
    """a text of the same length that differs in one character"""
    at = [i for i, c in enumerate(s) if "a" <= c <= "y" or "0" <= c <= "8" or c in "+*<&|"]
    if not at:
        return s + " "
    i = r.choice(at)
    return s[:i] + {"+": "-", "*": "%", "<": ">", "&": "|", "|": "&"}.get(s[i], chr(ord(s[i]) + 1)) + s[i + 1:]


def split(h):
    """the steps of each thread"""
    ts = sorted(set(e[0] for e in h))
    return [[e[1:] for e in h if e[0] == t] for t in ts]


def unlike(ctx):
    """texts of all kinds"""
    seen = set()
    for family in (edges(ctx.part(2, 1)), words(ctx.part(16, 4)), class_members(ctx.part(24, 4)), imports(ctx.part(24, 4)), literals(ctx.part(4, 1)),
                   statements_in_positions(ctx.part(24, 4)), constructs_in_positions(ctx.part(128, 16)), short_strings(2, ctx.part(4, 1)),
                   soup_exhaustive(2, ctx.part(8, 1)), numerals(ctx.part(16, 4)), patterns_in_positions(ctx.part(32, 4))):
        for s in family:
            if s not in seen:
                seen.add(s)
                yield s


def sizes(quick):
    """texts that are large in one way: statements, depth, lists, names, tokens, lines
    (not very deep: the standard library indents the readable debug format at a cubic cost in the depth)"""
    for n in [20, 65, 130, 260, 310, 520, 1030] + ([] if quick else [2100, 4200, 10000]):
        yield "a;" * n
        yield "\n".join("var x%d = %d" % (i, i) for i in range(n))
        yield "x = [" + "a, " * n + "]"
        yield "f(" + ", ".join("a%d => a%d" % (i, i) for i in range(n)) + ")"
        yield "x = '" + "é" * n + "'; " + "y" * n
        yield "function f(" + ", ".join("p%d" % i for i in range(n)) + ") { return [" + ", ".join("p%d" % i for i in range(n)) + "] }"
        yield "x = {" + ", ".join("k%d: %d" % (i, i) for i in range(n)) + "}"
        yield "x = `" + "${a}b" * n + "`"
        yield "class A {" + " ".join("m%d() {}" % i for i in range(n)) + "}"
        yield "\n" * n + "a\n" + " " * n + "b"
    for d in [5, 17, 33, 60]:
        yield "(" * d + "a" + ")" * d
        yield "{" * d + "a" + "}" * d
        yield "[" * d + "a => {" * d + "b" + "}" * d + "]" * d
        yield "if (a) " * d + "b"
        yield "a ? " * d + "b" + " : c" * d
        yield "function f() {" * d + "let a; () => a" + "}" * d


def c16(ctx):
    r = ctx.rng
    impl = vt.Impl()
    try:
        def case(family, size, good, bad, threads, times=1):
            srcs = pool(impl, sources(r, size), good, bad)
            if srcs is None:
                raise vt.ToolError("too few programs are accepted, or too few rejected, for a history")
            return {"family": family, "mode": "history", "srcs": srcs, "programs": list(range(1, good + 1)), "threads": threads,
                    "times": times}
        if ctx.round == 0 or not ctx.quick:
            # every history of a length, some hundred of them after each other in one process
            for good, bad, handles, length in ((2, 0, 2, 3), (1, 1, 2, 3)) + (() if ctx.quick else ((1, 1, 1, 4), (2, 0, 1, 4))):
                hs, _ = vt.histories(ctx.cwd, [1], range(handles), range(1, good + bad + 1), range(1, good + 1), STARTS, length)
                if not ctx.quick:
                    hs = hs[ctx.shard::ctx.shards] if length > 3 else hs
                for i in range(0, len(hs), 500):
                    steps = [e[1:] for h in hs[i:i + 500] for e in h]
                    yield case("all histories of %d operations" % length, "small", good, bad, [steps])
            # all kinds of texts, eight at a time, in an order and back
            texts = list(unlike(ctx))
            for i in range(0, len(texts), 8):
                srcs = texts[i:i + 8]
                yes = [s for s in srcs if accepted(impl, s)]
                srcs = yes + [s for s in srcs if s not in yes]
                order = list(range(1, len(srcs) + 1))
                r.shuffle(order)
                steps = [x for k in order + order[::-1] + order for x in (["parse", k % 3, k], [r.choice(EMBEDDED), 0, k])]
                yield {"family": "all kinds of texts in an order and back", "mode": "history", "srcs": srcs,
                       "programs": list(range(1, len(yes) + 1)), "threads": [steps]}
            # what is small after what is large in one way
            for big in every(sizes(ctx.quick), ctx.part()):
                srcs = [big, "f(a, b)", "let x = 1;\n(y => [z, 'é'])()", "a b"]
                steps = []
                for op in STARTS * 2:
                    steps += [["parse", 0, 1], [op, 0, 1]]
                    steps += [x for k in r.sample([2, 3], 2) for x in (["parse", 1, k], [r.choice(STARTS[1:]), 1, k])]
                    steps += [["parse", 2, 4]] if r.random() < 0.3 else []
                yield {"family": "small after large", "mode": "history", "srcs": srcs, "programs": [1, 2, 3], "threads": [steps]}
            # and every history of two operations, again and again
            hs, _ = vt.histories(ctx.cwd, [1], range(1), range(1, 2), range(1, 2), STARTS, 2)
            for h in hs[ctx.shard::ctx.shards]:
                yield case("two operations repeated", "small", 1, 0, [[e[1:] for e in h] * (3000 if ctx.quick else 30000)])
        seed = (ctx.seed * 1000 + ctx.round) * 100 + ctx.shard
        hs, _ = vt.histories(ctx.cwd, [1, 2, 3, 4], range(3), range(1, 7), range(1, 5), STARTS, 60, ctx.n(640), seed)
        for h in hs:
            yield case("several threads", "medium" if r.random() < 0.9 else "large", 4, 2, split(h), 2)
        hs, _ = vt.histories(ctx.cwd, [1], range(3), range(1, 7), range(1, 5), STARTS, 80, ctx.n(320), seed + 50)
        for h in hs[1::2]:
            yield case("one thread", "medium" if r.random() < 0.9 else "large", 4, 2, split(h))
        steps = [e[1:] for h in hs for e in h]
        yield case("long history", "small", 4, 2, [(steps * (400000 // len(steps)))[:ctx.n(40000 if ctx.quick else 400000)]])
        # all threads begin with the same work at the same time
        hs, _ = vt.histories(ctx.cwd, [1], range(2), range(1, 4), range(1, 3), STARTS, 40, ctx.n(160), seed + 70)
        for h in hs:
            yield case("the same in all threads", "medium", 2, 1, split(h) * 8, 3)
    finally:
        impl.stop()


# every view of a text
VIEWS = [["transform", ["src1", "false"]], ["transform", ["src1", "true"]], ["parse", ["src1"]], ["ast", ["src1", "false"]], ["ast", ["src1", "true"]]]


def c18(ctx):
    r = ctx.rng
    if ctx.round == 0:
        model = os.path.join(os.path.dirname(os.path.dirname(ctx.cwd)), "model")
        every = json.load(open(os.path.join(model, "calls", "sessions.json")))
        pairs = json.load(open(os.path.join(model, "pairs", "sessions.json")))
        texts = ["a => b;\nlet x = `y${ z }`;\n", "a ~ ;\n\n  b = é + ;", "", "f(", "x"]
        at = 0
        for one in texts:
            for two in texts:
                at += 1
                if at % ctx.shards == ctx.shard:
                    yield {"family": "every call", "mode": "binding", "srcs": [one, two], "calls": [p[0] for p in every]}
        share = pairs[ctx.shard::ctx.shards]
        for i, two in enumerate(texts):
            yield {"family": "every pair of calls", "mode": "binding", "srcs": [texts[0], two],
                   "calls": [c for p in share for c in p]}
    if ctx.round == 0 or not ctx.quick:
        yield from tag("texts of all kinds", "binding", ([s] for s in unlike(ctx)), calls=VIEWS)
    yield from tag("programs", "binding", ([s] for s in programs(r, ctx.n(800))), calls=VIEWS)
    yield from tag("mutated programs", "binding", ([s] for s in mutated(r, ctx.n(2000))), calls=VIEWS)
    yield from tag("programs of many lines with errors", "binding", ([s] for s in bad_lines(r, ctx.n(600))), calls=VIEWS)


PLANS = {"C18": c18, "C16": c16, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": visiting("walk"), "C12": visiting("scopes"), "C13": visiting("transform"), "C14": c14, "C15": c15, "C17": c17}


def cases(prop, shard, shards, seed, tier, deadline, cwd):
    round_ = 0
    while True:
        yield from PLANS[prop](Context(shard, shards, seed, tier, round_, os.path.join(cwd, "generate")))
        round_ += 1
        if tier == "quick" or time.monotonic() > deadline:
            return


DERIVING = {"C03", "C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"}


def models(prop, tier, seed):
    """what is explored of the specification alone, before anything is asked of the implementation"""
    if prop == "C01":
        yield lambda cwd: vt.scan(os.path.join(cwd, "live"), "all", 2, emit=False, live=True)
        for name, (_, quick, thorough, longer) in vt.SYMBOLS.items():
            n = quick if tier == "quick" else thorough
            yield lambda cwd, name=name, n=n: vt.scan(cwd, name, n, emit=True)
            if tier != "quick" and longer > n:
                yield lambda cwd, name=name, n=longer: vt.scan(cwd, name, n, emit=False)
    if prop == "C18":
        values = ["src1", "src2", "true", "false", "number", "undefined", "null"]
        yield lambda cwd: vt.sessions(cwd, "calls", 1, 3 if tier == "quick" else 4, values)
        yield lambda cwd: vt.sessions(cwd, "pairs", 2, 2, ["src1", "src2", "true", "false"])
    if prop in DERIVING:
        yield lambda cwd: vt.derive(cwd, "exhaustive", fuel=2, most=2, infix=vt.INFIX, emit=True)
        yield lambda cwd: vt.derive(cwd, "random", fuel=14, most=3, infix=vt.INFIX, emit=True, simulate=250 if tier == "quick" else 1500, seed=seed)
        if tier != "quick":
            yield lambda cwd: vt.derive(cwd, "deeper", fuel=3, most=2, infix=["=", "-", "/", "in", "**", "||"], emit=False)
