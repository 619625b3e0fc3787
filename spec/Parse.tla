------------------------------- MODULE Parse -------------------------------
(* The grammar of the accepted language and the tree that belongs to each      *)
(* program, as recursive operators over the tokens of module Lex.              *)
(*                                                                             *)
(* A parse operator takes the source S and the current token t and gives a     *)
(* result [ok, n, t]: either the tree (or value) n and the token that follows  *)
(* it, or ok = FALSE and the token t at which the text stops being a program.  *)
EXTENDS Lex, Tree

Ok(n, t) == [ok |-> TRUE, n |-> n, t |-> t]
Bad(t)   == [ok |-> FALSE, n |-> None, t |-> t]
Then(r, F(_, _)) == IF r.ok THEN F(r.n, r.t) ELSE r

\* the token t has to be k: the result is the token after it, its value the old token
Expect(S, t, k) == IF t.k = k THEN Ok(t, Next(S, t)) ELSE Bad(t)

\* the end of a statement that may end with a semicolon
Semicolon(S, t, n) ==
  IF t.a = "X" THEN Ok(n, Next(S, t)) ELSE IF t.a = "I" THEN Ok(n, t) ELSE Bad(t)

IsName(S, t, w) == t.k = "ID" /\ TextOf(S, t) = w
NameNode(S, t) == N("Name", TextOf(S, t), t.s, t.e, <<>>)
Name(S, t) == IF t.k = "ID" THEN Ok(NameNode(S, t), Next(S, t)) ELSE Bad(t)

(***************************************************************************)
(* Operators                                                               *)
(***************************************************************************)
AssignOps == {"=", "+=", "-=", "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="}
PrefixOps == {"++", "--", "!", "~", "typeof", "void", "delete", "+", "-"}
AtomNames == [x \in {"null", "true", "false", "undefined", "NUM", "BIN", "STR", "this", "ID"} |->
  CASE x = "null" -> "Null" [] x = "true" -> "True" [] x = "false" -> "False"
    [] x = "undefined" -> "Undefined" [] x = "NUM" -> "Number" [] x = "BIN" -> "BinaryNum"
    [] x = "STR" -> "String" [] x = "this" -> "This" [] x = "ID" -> "Ident"]
Textual == {"NUM", "BIN", "STR", "ID"}

\* how tightly an infix or postfix token binds, -2 when it is none
LevelTable ==
  [ x \in AssignOps \cup {",", "?", "||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">",
                          "<=", ">=", "instanceof", "in", "<<", ">>", ">>>", "+", "-", "*", "/",
                          "%", "**", "(", "[", "ACC", "TPLO", "TPLC", "++", "--", "=>"} |->
      CASE x = "," -> -1
        [] x \in AssignOps \/ x = "?" -> 1
        [] x = "||" -> 4
        [] x = "&&" -> 5
        [] x = "|"  -> 6
        [] x = "^"  -> 7
        [] x = "&"  -> 8
        [] x \in {"==", "!=", "===", "!=="} -> 9
        [] x \in {"<", ">", "<=", ">=", "instanceof", "in"} -> 10
        [] x \in {"<<", ">>", ">>>"} -> 11
        [] x \in {"+", "-"} -> 12
        [] x \in {"*", "/", "%"} -> 13
        [] x = "**" -> 14
        [] x \in {"++", "--", "=>"} -> 15
        [] x = "(" -> 15
        [] OTHER -> 16 ]
LevelNames == DOMAIN LevelTable
Level(t) == IF t.k \in {"++", "--"} /\ t.a = "I" THEN -2
            ELSE IF t.k \in LevelNames THEN LevelTable[t.k] ELSE -2

ANY == -1       \* a sequence
ITEM == 0       \* an item of a list
UNARY == 15     \* an operand of a prefix operator
MEMBER == 16    \* the constructor of a new expression: accesses and templates only

Assignable(n) == n.k \in {"Ident", "Member", "CMember", "Object", "Array", "Spread"}

Words == (Keywords \cup {"ID"}) \ {"in", "var", "let", "const", "enum", "implements", "package",
                                   "protected", "interface", "private", "public"}

RECURSIVE Expr(_, _, _), ExprIn(_, _, _, _), Primary(_, _, _), Nested(_, _, _, _), Infix(_, _, _),
          SequenceRest(_, _, _), Arguments(_, _, _), Elements(_, _, _), Properties(_, _, _),
          Property(_, _), TemplateFrom(_, _, _, _, _), ToPattern(_, _), ToPatterns(_, _, _),
          ArrowBody(_, _, _, _), Paren(_, _), NewExpr(_, _), Call(_, _, _), Template(_, _),
          Statement(_, _), Body(_, _, _), Params(_, _, _), Pattern(_, _), PatternElements(_, _, _),
          FunctionRest(_, _, _, _, _), ClassRest(_, _, _, _, _), Member(_, _), Declarators(_, _, _),
          CaseBody(_, _, _), Case(_, _), ForRest(_, _, _, _), Specifiers(_, _, _)

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
\* an expression whose operators bind at least as tightly as m; inside an array ctx is "arr"
\* and inside arguments it is "call"
Expr(S, t, m) == ExprIn(S, t, m, "")
ExprIn(S, t, m, ctx) == Then(Primary(S, t, ctx), LAMBDA n, u : Nested(S, n, u, m))

Nested(S, left, t, m) ==
  IF Level(t) >= m /\ Level(t) # -2
  THEN Then(Infix(S, left, t), LAMBDA n, u : Nested(S, n, u, m))
  ELSE Ok(left, t)

Binary(S, left, t, m) ==
  Then(Expr(S, Next(S, t), m), LAMBDA right, u :
    Ok(N("Binary", TextOf(S, t), left.s, right.e, <<left, right>>), u))

Infix(S, left, t) ==
  LET k == t.k
      u == Next(S, t)
  IN
  CASE k = "," -> SequenceRest(S, <<left>>, t)
    [] k \in AssignOps -> IF Assignable(left) THEN Binary(S, left, t, ITEM) ELSE Bad(u)
    [] k = "?" ->
         Then(Expr(S, u, ITEM), LAMBDA then, v :
           Then(Expect(S, v, ":"), LAMBDA c, w :
             Then(Expr(S, w, ITEM), LAMBDA else, x :
               Ok(N("Conditional", "", left.s, else.e, <<left, then, else>>), x))))
    [] k = "=>" -> ArrowBody(S, left.s, IF left.k = "Sequence" THEN left.c ELSE <<left>>, u)
    [] k \in {"++", "--"} ->
         IF Assignable(left) THEN Ok(N("Postfix", k, left.s, t.e, <<left>>), u) ELSE Bad(u)
    [] k = "(" -> Call(S, left, t)
    [] k = "[" ->
         Then(Expr(S, u, ANY), LAMBDA p, v :
           Then(Expect(S, v, "]"), LAMBDA c, w :
             Ok(N("CMember", "", left.s, w.e, <<left, p>>), w)))
    [] k = "ACC" ->
         Ok(N("Member", "", left.s, u.e, <<left, N("Name", Slice(S, t.p, t.e), u.s, u.e, <<>>)>>), u)
    [] k \in {"TPLO", "TPLC"} ->
         Then(Template(S, t), LAMBDA q, v :
           Ok(N("Tagged", "", left.s, q.e, <<left, q>>), v))
    [] OTHER -> Binary(S, left, t, IF k = "**" THEN 14 ELSE LevelTable[k] + 1)

SequenceRest(S, items, t) ==
  IF t.k = "," THEN Then(Expr(S, Next(S, t), ITEM), LAMBDA n, u : SequenceRest(S, Append(items, n), u))
  ELSE Ok(N("Sequence", "", items[1].s, t.e, items), t)

Call(S, callee, t) ==
  LET u == Next(S, t) IN
  Then(IF u.k = ")" THEN Ok(<<>>, u)
       ELSE Then(ExprIn(S, u, ITEM, "call"), LAMBDA n, v : Arguments(S, <<n>>, v)),
       LAMBDA args, v : Ok(N("Call", "", t.s, v.e, <<callee>> \o args), Next(S, v)))

Arguments(S, args, t) ==
  IF t.k = ")" THEN Ok(args, t)
  ELSE IF t.k = "," THEN
    LET u == Next(S, t) IN
    IF u.k = ")" THEN Ok(args, u)
    ELSE Then(ExprIn(S, u, ITEM, "call"), LAMBDA n, v : Arguments(S, Append(args, n), v))
  ELSE Bad(t)

\* the parameters of an arrow function were read as expressions; the error is reported at the
\* token after the arrow
ToPattern(n, t) ==
  IF n.k = "Ident" THEN Ok(N("PIdent", n.t, n.s, n.e, <<>>), t)
  ELSE IF n.k = "Binary" /\ n.t = "=" THEN
    Then(ToPattern(n.c[1], t), LAMBDA p, u : Ok(N("PAssign", "", n.s, n.e, <<p, n.c[2]>>), u))
  ELSE Bad(t)
ToPatterns(ns, i, t) ==
  IF i > Len(ns) THEN Ok(<<>>, t)
  ELSE Then(ToPattern(ns[i], t), LAMBDA p, u :
         Then(ToPatterns(ns, i + 1, t), LAMBDA ps, v : Ok(<<p>> \o ps, v)))

\* from the token after the arrow
ArrowBody(S, start, params, t) ==
  Then(ToPatterns(params, 1, t), LAMBDA ps, u :
    IF t.k = "{"
    THEN Then(Body(S, t, "stmt"), LAMBDA b, v : Ok(N("ArrowB", "", start, v.e, <<List(ps), b>>), v))
    ELSE Then(Expr(S, t, ITEM), LAMBDA b, v : Ok(N("ArrowE", "", start, v.e, <<List(ps), b>>), v)))

Paren(S, t) ==
  LET u == Next(S, t) IN
  IF u.k = ")"
  THEN Then(Expect(S, Next(S, u), "=>"), LAMBDA a, v : ArrowBody(S, t.s, <<>>, v))
  ELSE Then(Expr(S, u, ANY), LAMBDA n, v : Then(Expect(S, v, ")"), LAMBDA c, w : Ok(n, w)))

NewExpr(S, t) ==
  LET u == Next(S, t) IN
  IF u.k = "ACC"
  THEN IF Slice(S, u.p, u.e) # "target" THEN Bad(u)
       ELSE Ok(N("Meta", "", t.s, u.e,
                 <<N("Name", "new", t.s, t.e, <<>>), N("Name", "target", u.s, u.e, <<>>)>>), Next(S, u))
  ELSE Then(Expr(S, u, MEMBER), LAMBDA f, v :
         Then(IF v.k = "(" THEN Call(S, f, v)
              ELSE IF f.k = "Call" THEN Ok(N("Call", "", f.s, f.e, <<f>>), v)
              ELSE Ok(f, v),
              LAMBDA n, w : Ok(N("Prefix", "new", t.s, w.e, <<n>>), w)))

(* templates: the current token is the first piece *)
Quasi(S, t) == N("Quasi", Slice(S, t.q[1], t.q[2]), t.s, t.e, <<>>)
Template(S, t) ==
  IF t.k = "TPLC"
  THEN Ok(N("Template", "", t.s, t.e, <<List(<<Quasi(S, t)>>), List(<<>>)>>), Next(S, t))
  ELSE TemplateFrom(S, t.s, <<>>, <<>>, t)
TemplateFrom(S, start, quasis, exprs, t) ==
  IF t.k = "TPLC"
  THEN Ok(N("Template", "", start, t.e, <<List(Append(quasis, Quasi(S, t))), List(exprs)>>), Next(S, t))
  ELSE IF t.k = "TPLO"
  THEN Then(Expr(S, Next(S, t), ANY), LAMBDA n, u :
         IF u.k = "}"
         THEN TemplateFrom(S, start, Append(quasis, Quasi(S, t)), Append(exprs, n), TemplateRest(S, u))
         ELSE Bad(u))
  ELSE Bad(t)

Primary(S, t, ctx) ==
  LET k == t.k
      u == Next(S, t)
  IN
  IF k \in DOMAIN AtomNames
  THEN Ok(N(AtomNames[k], IF k \in Textual THEN TextOf(S, t) ELSE "", t.s, t.e, <<>>), u)
  ELSE CASE k = "(" -> Paren(S, t)
    [] k = "[" -> Then(Elements(S, <<>>, u), LAMBDA es, v : Ok(N("Array", "", t.s, v.e, es), Next(S, v)))
    [] k = "{" -> Then(Properties(S, <<>>, u), LAMBDA ps, v : Ok(N("Object", "", t.s, v.e, ps), Next(S, v)))
    [] k = "new" -> NewExpr(S, t)
    [] k \in PrefixOps ->
         Then(Expr(S, u, UNARY), LAMBDA n, v : Ok(N("Prefix", k, t.s, v.e, <<n>>), v))
    [] k \in {"/", "/="} ->
         LET r == RegexRest(S, t) IN
         IF r.k = "REGEX" THEN Ok(N("RegEx", TextOf(S, r), r.s, r.e, <<>>), Next(S, r)) ELSE Bad(r)
    [] k = "class" ->
         IF u.k = "ID" THEN ClassRest(S, "ClassExpr", t.s, NameNode(S, u), Next(S, u))
                       ELSE ClassRest(S, "ClassExpr", t.s, None, u)
    [] k = "function" ->
         LET v == IF u.k = "*" THEN Next(S, u) ELSE u
             g == IF u.k = "*" THEN "*" ELSE ""
         IN IF v.k = "ID" THEN FunctionRest(S, "FunctionExpr", g, <<t.s, NameNode(S, v)>>, Next(S, v))
                          ELSE FunctionRest(S, "FunctionExpr", g, <<t.s, None>>, v)
    [] k \in {"TPLO", "TPLC"} -> Template(S, t)
    [] k = "..." /\ ctx # "" ->
         Then(Expr(S, u, ITEM), LAMBDA n, v : Ok(N("Spread", "", t.s, n.e, <<n>>), v))
    [] k \in {",", "]"} /\ ctx = "arr" -> Ok(N("Void", "", t.s, t.s, <<>>), t)
    [] OTHER -> Bad(t)

\* the elements of an array up to its closing bracket, which becomes the current token
Elements(S, es, t) ==
  IF es = <<>> /\ t.k = "]" THEN Ok(es, t)
  ELSE Then(ExprIn(S, t, ITEM, "arr"), LAMBDA n, u :
         IF u.k = "," THEN Elements(S, Append(es, n), Next(S, u))
         ELSE IF u.k = "]" THEN Ok(Append(es, n), u) ELSE Bad(u))

\* the properties of an object up to its closing brace
Properties(S, ps, t) ==
  IF t.k = "}" THEN Ok(ps, t)
  ELSE Then(Property(S, t), LAMBDA p, u :
         IF u.k = "}" THEN Ok(Append(ps, p), u)
         ELSE IF u.k = "," THEN Properties(S, Append(ps, p), Next(S, u)) ELSE Bad(u))

PropertyValue(S, start, key, t) ==
  IF t.k = ":"
  THEN Then(Expr(S, Next(S, t), ITEM), LAMBDA v, u : Ok(N("Prop", "", start, v.e, <<key, v>>), u))
  ELSE IF t.k = "("
  THEN Then(FunctionRest(S, "Function", "", <<t.s, None>>, t), LAMBDA f, u :
         Ok(N("Method", "", start, f.e, <<key, f>>), u))
  ELSE Bad(t)

ComputedKey(S, t, s) ==
  Then(Expr(S, Next(S, t), ANY), LAMBDA n, u :
    Then(Expect(S, u, "]"), LAMBDA c, v : Ok(N("Computed", "", s, c.e, <<n>>), v)))

Property(S, t) ==
  LET k == t.k
      u == Next(S, t)
  IN
  IF k \in Words
  THEN IF u.k \in {":", "("}
       THEN PropertyValue(S, t.s, N("Key", TextOf(S, t), t.s, t.e, <<>>), u)
       ELSE Ok(N("Shorthand", TextOf(S, t), t.s, t.e, <<>>), u)
  ELSE IF k = "..."
  THEN Then(Expr(S, u, ITEM), LAMBDA n, v : Ok(N("SpreadProp", "", t.s, v.e, <<n>>), v))
  ELSE IF k \in {"STR", "NUM"} THEN PropertyValue(S, t.s, N("Key", TextOf(S, t), t.s, t.e, <<>>), u)
  ELSE IF k = "BIN" THEN PropertyValue(S, t.s, N("BinKey", TextOf(S, t), t.s, t.e, <<>>), u)
  ELSE IF k = "["
  THEN Then(ComputedKey(S, t, t.s), LAMBDA key, v : PropertyValue(S, t.s, key, v))
  ELSE Bad(t)

(***************************************************************************)
(* Patterns, functions and classes                                         *)
(***************************************************************************)
Pattern(S, t) ==
  LET u == Next(S, t) IN
  CASE t.k = "ID" -> Ok(N("PIdent", TextOf(S, t), t.s, t.e, <<>>), u)
    [] t.k = "[" -> Then(PatternElements(S, <<>>, u), LAMBDA es, v : Ok(N("PArray", "", t.s, v.e, es), Next(S, v)))
    [] t.k = "{" -> Then(Properties(S, <<>>, u), LAMBDA ps, v : Ok(N("PObject", "", t.s, v.e, ps), Next(S, v)))
    [] OTHER -> Bad(t)

\* a pattern with an optional default
PatternItem(S, t) ==
  Then(Pattern(S, t), LAMBDA p, u :
    IF u.k = "="
    THEN Then(Expr(S, Next(S, u), ITEM), LAMBDA v, w : Ok(N("PAssign", "", p.s, v.e, <<p, v>>), w))
    ELSE Ok(p, u))

PatternElements(S, es, t) ==
  IF es = <<>> /\ t.k = "]" THEN Ok(es, t)
  ELSE Then(IF t.k \in {",", "]"} THEN Ok(N("PVoid", "", t.s, t.s, <<>>), t) ELSE PatternItem(S, t),
            LAMBDA n, u :
              IF u.k = "," THEN PatternElements(S, Append(es, n), Next(S, u))
              ELSE IF u.k = "]" THEN Ok(Append(es, n), u) ELSE Bad(u))

\* parameters from the token after the opening parenthesis, through the closing one
Params(S, ps, t) ==
  IF t.k = ")" THEN Ok(ps, Next(S, t))
  ELSE IF t.k = "..."
  THEN Then(Name(S, Next(S, t)), LAMBDA n, u :
         Then(Expect(S, u, ")"), LAMBDA c, v : Ok(Append(ps, N("Rest", "", t.s, n.e, <<n>>)), v)))
  ELSE Then(PatternItem(S, t), LAMBDA p, u :
         IF u.k = "," THEN Params(S, Append(ps, p), Next(S, u))
         ELSE IF u.k = ")" THEN Ok(Append(ps, p), Next(S, u)) ELSE Bad(u))

\* start is <<first byte, name>>; the current token is the opening parenthesis
FunctionRest(S, kind, star, start, t) ==
  Then(Expect(S, t, "("), LAMBDA o, u :
    Then(Params(S, <<>>, u), LAMBDA ps, v :
      Then(Body(S, v, "stmt"), LAMBDA b, w :
        Ok(N(kind, star, start[1], b.e, <<start[2], List(ps), b>>), w))))

ClassRest(S, kind, start, name, t) ==
  Then(IF t.k = "extends" THEN Expr(S, Next(S, t), ITEM) ELSE Ok(None, t), LAMBDA x, u :
    Then(Body(S, u, "member"), LAMBDA b, v : Ok(N(kind, "", start, b.e, <<name, x, b>>), v)))

MemberRest(S, start, static, kind, key, t) ==
  LET pre == IF static THEN IF kind = "" THEN "static" ELSE "static " ELSE "" IN
  Then(IF t.k = "("
       THEN Then(FunctionRest(S, "Function", "", <<t.s, None>>, t), LAMBDA f, u :
              Ok(N("MethodM", pre \o kind, start, f.e, <<key, f>>), u))
       ELSE IF t.k = "=" /\ kind \notin {"get", "set"}
       THEN Then(Expr(S, Next(S, t), ITEM), LAMBDA v, u :
              Ok(N("FieldM", IF static THEN "static" ELSE "", start, v.e, <<key, v>>), u))
       ELSE Bad(t),
       LAMBDA m, u : Ok(m, IF u.k = ";" THEN Next(S, u) ELSE u))

Member(S, t0) ==
  LET static == t0.k = "static"
      t == IF static THEN Next(S, t0) ELSE t0
      u == Next(S, t)
      w == TextOf(S, t)
  IN
  IF t.k \in Words
  THEN IF u.k \in Words
       THEN IF w \in {"get", "set"}
            THEN MemberRest(S, t0.s, static, w, N("Key", TextOf(S, u), u.s, u.e, <<>>), Next(S, u))
            ELSE Bad(u)
       ELSE MemberRest(S, t0.s, static, IF ~static /\ w = "constructor" THEN "constructor" ELSE "",
                       N("Key", w, t.s, t.e, <<>>), u)
  ELSE IF t.k = "NUM" THEN MemberRest(S, t0.s, static, "", N("Key", w, t.s, t.e, <<>>), u)
  ELSE IF t.k = "BIN" THEN MemberRest(S, t0.s, static, "", N("BinKey", w, t.s, t.e, <<>>), u)
  ELSE IF t.k = "["
  THEN Then(ComputedKey(S, t, t.s), LAMBDA key, v : MemberRest(S, t0.s, static, "", key, v))
  ELSE Bad(t)

(***************************************************************************)
(* Statements                                                              *)
(***************************************************************************)
RECURSIVE Items(_, _, _, _)
Items(S, what, ns, t) ==
  IF t.k = "}" THEN Ok(ns, t)
  ELSE IF t.k = "EOF" THEN Bad(t)
  ELSE Then(CASE what = "stmt" -> Statement(S, t) [] what = "member" -> Member(S, t)
              [] what = "case" -> Case(S, t),
            LAMBDA n, u : Items(S, what, Append(ns, n), u))

\* a block in braces of statements, class members or cases
Body(S, t, what) ==
  Then(Expect(S, t, "{"), LAMBDA o, u :
    Then(Items(S, what, <<>>, u), LAMBDA ns, v : Ok(N("Block", "", t.s, v.e, ns), Next(S, v))))

ParenExpr(S, t) ==
  Then(Expect(S, t, "("), LAMBDA o, u :
    Then(Expr(S, u, ANY), LAMBDA n, v : Then(Expect(S, v, ")"), LAMBDA c, w : Ok(n, w))))

Declarators(S, ds, t) ==
  Then(Pattern(S, t), LAMBDA p, u :
    Then(IF u.k = "="
         THEN Then(Expr(S, Next(S, u), ITEM), LAMBDA v, w :
                Ok(N("Declarator", "", p.s, v.e, <<p, v>>), w))
         ELSE Ok(N("Declarator", "", p.s, p.e, <<p, None>>), u),
         LAMBDA d, v :
           IF v.k = "," THEN Declarators(S, Append(ds, d), Next(S, v)) ELSE Ok(Append(ds, d), v)))

Declaration(S, t, kind) ==
  Then(Declarators(S, <<>>, Next(S, t)), LAMBDA ds, u : Ok(N(kind, t.k, t.s, u.e, ds), u))

ExpressionStatement(S, start, r) ==
  Then(r, LAMBDA n, u :
    Semicolon(S, u, N("Expression", "", IF start = -1 THEN n.s ELSE start, n.e, <<n>>)))

\* return, break and continue: nothing follows when a semicolon can be inserted right away
Jump(S, t, kind, R(_)) ==
  LET u == Next(S, t) IN
  IF u.a = "X" THEN Ok(N(kind, "", t.s, t.e, <<None>>), Next(S, u))
  ELSE IF u.a = "I" THEN Ok(N(kind, "", t.s, t.e, <<None>>), u)
  ELSE Then(R(u), LAMBDA n, v : Semicolon(S, v, N(kind, "", t.s, n.e, <<n>>)))

Case(S, t) ==
  LET u == Next(S, t) IN
  Then(IF t.k = "case" THEN Expr(S, u, ANY) ELSE IF t.k = "default" THEN Ok(None, u) ELSE Bad(t),
       LAMBDA test, v :
         Then(Expect(S, v, ":"), LAMBDA c, w :
           Then(CaseBody(S, <<>>, w), LAMBDA ns, x :
             Ok(N("Case", "", t.s, IF ns = <<>> THEN c.e ELSE ns[Len(ns)].e, <<test, List(ns)>>), x))))
CaseBody(S, ns, t) ==
  IF t.k \in {"case", "default", "}", "EOF"} THEN Ok(ns, t)
  ELSE Then(Statement(S, t), LAMBDA n, u : CaseBody(S, Append(ns, n), u))

If(S, t) ==
  Then(ParenExpr(S, Next(S, t)), LAMBDA test, u :
    Then(Statement(S, u), LAMBDA then, v :
      IF v.k = "else"
      THEN Then(Statement(S, Next(S, v)), LAMBDA else, w :
             Ok(N("If", "", t.s, else.e, <<test, then, else>>), w))
      ELSE Ok(N("If", "", t.s, then.e, <<test, then, None>>), v)))

While(S, t) ==
  Then(ParenExpr(S, Next(S, t)), LAMBDA test, u :
    Then(Statement(S, u), LAMBDA body, v : Ok(N("While", "", t.s, body.e, <<test, body>>), v)))

Do(S, t) ==
  Then(Statement(S, Next(S, t)), LAMBDA body, u :
    Then(Expect(S, u, "while"), LAMBDA w, v :
      Then(Expect(S, v, "("), LAMBDA o, x :
        Then(Expr(S, x, ANY), LAMBDA test, y :
          Then(Expect(S, y, ")"), LAMBDA c, z :
            Ok(N("Do", "", t.s, c.e, <<body, test>>), IF z.k = ";" THEN Next(S, z) ELSE z))))))

\* after the left side of for-in or for-of
ForRest(S, start, kind, r) ==
  Then(r, LAMBDA lr, u :
    Then(Expect(S, u, ")"), LAMBDA c, v :
      Then(Statement(S, v), LAMBDA body, w : Ok(N(kind, "", start, body.e, <<lr[1], lr[2], body>>), w))))

ForClassic(S, start, init, t) ==
  Then(IF t.k = ";" THEN Ok(None, Next(S, t))
       ELSE Then(Expr(S, t, ANY), LAMBDA n, u : Then(Expect(S, u, ";"), LAMBDA c, v : Ok(n, v))),
       LAMBDA test, u :
         Then(IF u.k = ")" THEN Ok(None, Next(S, u))
              ELSE Then(Expr(S, u, ANY), LAMBDA n, v : Then(Expect(S, v, ")"), LAMBDA c, w : Ok(n, w))),
              LAMBDA update, v :
                Then(Statement(S, v), LAMBDA body, w :
                  Ok(N("For", "", start, body.e, <<init, test, update, body>>), w))))

For(S, t) ==
  Then(Expect(S, Next(S, t), "("), LAMBDA o, u :
    IF u.k = ";" THEN ForClassic(S, t.s, None, Next(S, u))
    ELSE Then(IF u.k \in {"var", "let", "const"} THEN Declaration(S, u, "DeclInit")
              ELSE Then(Expr(S, u, ANY), LAMBDA n, v : Ok(N("ExprInit", "", n.s, n.e, <<n>>), v)),
              LAMBDA init, v :
                \* an expression that is itself an `in` operation is the head of a for-in loop
                IF init.k = "ExprInit" /\ init.c[1].k = "Binary" /\ init.c[1].t = "in"
                THEN LET l == init.c[1].c[1]
                         r == init.c[1].c[2]
                     IN ForRest(S, t.s, "ForIn", Ok(<<N("ExprInit", "", l.s, l.e, <<l>>), r>>, v))
                ELSE IF v.k = "in"
                THEN ForRest(S, t.s, "ForIn",
                       Then(Expr(S, Next(S, v), ANY), LAMBDA r, w : Ok(<<init, r>>, w)))
                ELSE IF IsName(S, v, "of")
                THEN ForRest(S, t.s, "ForOf",
                       Then(Expr(S, Next(S, v), ANY), LAMBDA r, w : Ok(<<init, r>>, w)))
                ELSE Then(Expect(S, v, ";"), LAMBDA c, w : ForClassic(S, t.s, init, w))))

Try(S, t) ==
  Then(Body(S, Next(S, t), "stmt"), LAMBDA block, u :
    IF u.k = "catch"
    THEN Then(Expect(S, Next(S, u), "("), LAMBDA o, v :
           Then(Pattern(S, v), LAMBDA p, w :
             Then(Expect(S, w, ")"), LAMBDA c, x :
               Then(Body(S, x, "stmt"), LAMBDA body, y :
                 LET h == N("Catch", "", u.s, body.e, <<p, body>>) IN
                 IF y.k = "finally"
                 THEN Then(Body(S, Next(S, y), "stmt"), LAMBDA f, z :
                        Ok(N("Try", "", t.s, f.e, <<block, h, f>>), z))
                 ELSE Ok(N("Try", "", t.s, h.e, <<block, h, None>>), y)))))
    ELSE IF u.k = "finally"
    THEN Then(Body(S, Next(S, u), "stmt"), LAMBDA f, v :
           Ok(N("Try", "", t.s, f.e, <<block, None, f>>), v))
    ELSE Bad(u))

Switch(S, t) ==
  Then(ParenExpr(S, Next(S, t)), LAMBDA d, u :
    Then(Body(S, u, "case"), LAMBDA b, v : Ok(N("Switch", "", t.s, b.e, <<d, b>>), v)))

SourceText(S, t) == Slice(S, t.s + 1, t.e - 1)

\* the braces of an import, from the first specifier through the closing brace
Specifiers(S, ns, t) ==
  Then(Name(S, t), LAMBDA imported, u :
    Then(IF IsName(S, u, "as") THEN Name(S, Next(S, u)) ELSE Ok(imported, u), LAMBDA local, v :
      LET n == N("ImportSpecifier", "", imported.s, v.e, <<imported, local>>) IN
      IF v.k = "," THEN Specifiers(S, Append(ns, n), Next(S, v))
      ELSE IF v.k = "}" THEN Ok(Append(ns, n), Next(S, v)) ELSE Bad(v)))

ImportRest(S, start, r) ==
  Then(r, LAMBDA ns, u :
    IF ~IsName(S, u, "from") THEN Bad(u)
    ELSE LET v == Next(S, u) IN
         IF v.k # "STR" THEN Bad(v)
         ELSE Semicolon(S, Next(S, v), N("Import", SourceText(S, v), start, v.e, ns)))

ImportList(S, ns, t) ==
  IF t.k = "{" THEN Specifiers(S, ns, Next(S, t))
  ELSE IF t.k = "*"
  THEN LET u == Next(S, t) IN
       IF ~IsName(S, u, "as") THEN Bad(u)
       ELSE Then(Name(S, Next(S, u)), LAMBDA n, v :
              Ok(Append(ns, N("ImportNs", "", t.s, v.e, <<n>>)), v))
  ELSE Bad(t)

Import(S, t) ==
  LET u == Next(S, t) IN
  IF u.k \in {",", "("}
  THEN ExpressionStatement(S, t.s, Nested(S, N("Ident", TextOf(S, t), t.s, t.e, <<>>), u, ANY))
  ELSE IF u.k = "STR"
  THEN Semicolon(S, Next(S, u), N("Import", SourceText(S, u), t.s, u.e, <<>>))
  ELSE IF u.k = "ID"
  THEN LET v == Next(S, u)
           d == N("ImportDefault", "", u.s, v.e, <<NameNode(S, u)>>)
       IN ImportRest(S, t.s, IF v.k = "," THEN ImportList(S, <<d>>, Next(S, v)) ELSE Ok(<<d>>, v))
  ELSE ImportRest(S, t.s, ImportList(S, <<>>, u))

StartsExpression(k) ==
  k \in {"(", "[", "new", "/", "/=", "TPLO", "TPLC"} \cup PrefixOps \cup (DOMAIN AtomNames \ {"ID"})

Statement(S, t) ==
  LET k == t.k
      u == Next(S, t)
  IN
  CASE k = ";" -> Ok(N("Empty", "", t.s, t.e, <<>>), u)
    [] k = "ID" ->
         IF u.k = ":"
         THEN Then(Statement(S, Next(S, u)), LAMBDA b, v :
                Ok(N("Labeled", TextOf(S, t), t.s, b.e, <<b>>), v))
         ELSE ExpressionStatement(S, t.s, Expr(S, t, ANY))
    [] StartsExpression(k) -> ExpressionStatement(S, -1, Expr(S, t, ANY))
    [] k = "debugger" -> Semicolon(S, u, N("Debugger", "", t.s, t.e, <<>>))
    [] k = "{" -> Body(S, t, "stmt")
    [] k \in {"var", "let", "const"} ->
         Then(Declaration(S, t, "Declaration"), LAMBDA n, v : Semicolon(S, v, n))
    [] k = "return" -> Jump(S, t, "Return", LAMBDA v : Expr(S, v, ANY))
    [] k = "break" -> Jump(S, t, "Break", LAMBDA v : Name(S, v))
    [] k = "continue" -> Jump(S, t, "Continue", LAMBDA v : Name(S, v))
    [] k = "throw" ->
         Then(Expr(S, u, ANY), LAMBDA n, v : Semicolon(S, v, N("Throw", "", t.s, n.e, <<n>>)))
    [] k = "function" ->
         LET v == IF u.k = "*" THEN Next(S, u) ELSE u
             g == IF u.k = "*" THEN "*" ELSE ""
         IN Then(Name(S, v), LAMBDA n, w : FunctionRest(S, "FunctionDecl", g, <<t.s, n>>, w))
    [] k = "class" -> Then(Name(S, u), LAMBDA n, v : ClassRest(S, "ClassDecl", t.s, n, v))
    [] k = "if" -> If(S, t)
    [] k = "while" -> While(S, t)
    [] k = "do" -> Do(S, t)
    [] k = "for" -> For(S, t)
    [] k = "try" -> Try(S, t)
    [] k = "switch" -> Switch(S, t)
    [] k = "import" -> Import(S, t)
    [] OTHER -> Bad(t)

(***************************************************************************)
(* Programs                                                                *)
(***************************************************************************)
RECURSIVE Program(_, _, _)
Program(S, ns, t) ==
  IF t.k = "EOF" THEN Ok(ns, t)
  ELSE Then(Statement(S, t), LAMBDA n, u : Program(S, Append(ns, n), u))

\* a module node, or the token of the first error
Parse(S) ==
  LET r == Program(S, <<>>, First(S)) IN
  IF r.ok THEN [ok |-> TRUE, n |-> N("Module", "", 0, 0, r.n), t |-> r.t] ELSE r
=============================================================================
