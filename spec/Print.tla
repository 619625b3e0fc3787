------------------------------- MODULE Print -------------------------------
(* The canonical text of a tree, in readable and in minified form.             *)
(*                                                                             *)
(* Printing gives a sequence of pieces, joined by Text.  The piece END asks    *)
(* for a semicolon before whatever is printed next unless that is a closing    *)
(* brace; nothing is printed for it at the end of the program.                 *)
(*                                                                             *)
(* The layout x is a record [p, d]: whether the text is readable, and how deep *)
(* it is indented.                                                             *)
EXTENDS Tree, TLC

END == "<end>"

Readable == [p |-> TRUE, d |-> 0]
Minified == [p |-> FALSE, d |-> 0]

In(x) == [x EXCEPT !.d = @ + 1]

RECURSIVE Indent(_)
Indent(d) == IF d = 0 THEN "" ELSE "    " \o Indent(d - 1)

\* a space and a line break that only the readable form has
Sp(x) == IF x.p THEN <<" ">> ELSE <<>>
Nl(x) == IF x.p THEN <<"\n" \o Indent(x.d)>> ELSE <<>>

\* items separated by commas
RECURSIVE CommasOf(_, _)
CommasOf(items, x) ==
  IF items = <<>> THEN <<>>
  ELSE IF Len(items) = 1 THEN items[1]
  ELSE items[1] \o <<",">> \o Sp(x) \o CommasOf(Tail(items), x)
Commas(items, x, F(_, _)) == CommasOf([i \in DOMAIN items |-> F(items[i], x)], x)

\* items on lines of their own, indented, up to the line of what follows them
RECURSIVE LinesOf(_, _)
LinesOf(items, x) == IF items = <<>> THEN <<>> ELSE Nl(x) \o items[1] \o LinesOf(Tail(items), x)
Indented(items, x, F(_, _)) ==
  IF items = <<>> THEN <<>>
  ELSE LinesOf([i \in DOMAIN items |-> F(items[i], In(x))], In(x)) \o Nl(x)

(***************************************************************************)
(* Operators                                                               *)
(***************************************************************************)
Power ==
  [o \in {"++", "--", "*", "/", "%", "**", "+", "-", "<<", ">>", ">>>", "<", "<=", ">", ">=",
          "instanceof", "in", "===", "!==", "==", "!=", "&", "^", "|", "&&", "||", "=", "+=", "-=",
          "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="} |->
     CASE o \in {"++", "--"} -> 16
       [] o \in {"*", "/", "%", "**"} -> 14
       [] o \in {"+", "-"} -> 13
       [] o \in {"<<", ">>", ">>>"} -> 12
       [] o \in {"<", "<=", ">", ">=", "instanceof", "in"} -> 11
       [] o \in {"===", "!==", "==", "!="} -> 10
       [] o = "&" -> 9 [] o = "^" -> 8 [] o = "|" -> 7 [] o = "&&" -> 6 [] o = "||" -> 5
       [] OTHER -> 3]

Binding(n) ==
  CASE n.k \in {"Member", "Meta"} -> 18
    [] n.k = "Call" -> 17
    [] n.k = "Prefix" -> 15
    [] n.k \in {"Binary", "Postfix"} -> Power[n.t]
    [] n.k = "Conditional" -> 4
    [] n.k \in {"ArrowE", "ArrowB"} -> 3
    [] n.k = "Sequence" -> 0
    [] OTHER -> 100

Category(o) ==
  CASE o \in {"in", "new", "typeof", "void", "delete", "instanceof"} -> "word"
    [] o \in {"+", "++"} -> "plus"
    [] o \in {"-", "--"} -> "minus"
    [] OTHER -> "safe"

\* the expression that an expression's first token belongs to
RECURSIVE Leftmost(_)
Leftmost(n) ==
  IF n.k \in {"Member", "CMember", "Call", "Binary", "Postfix", "Conditional", "Tagged"}
  THEN Leftmost(n.c[1]) ELSE n

\* whether an expression can start a statement or follow an arrow as it is
RECURSIVE Bare(_)
Bare(n) ==
  IF n.k \in {"Object", "FunctionExpr", "ClassExpr"} THEN FALSE
  ELSE IF n.k \in {"Sequence", "Member", "CMember", "Call", "Binary", "Postfix", "Conditional", "Tagged"}
  THEN Bare(n.c[1]) ELSE TRUE

RECURSIVE CallInside(_)
CallInside(n) ==
  IF n.k \in {"Member", "CMember", "Tagged"} THEN CallInside(n.c[1]) ELSE n.k = "Call"

AllDigits(t) == \A i \in 1..Len(t) : SubSeq(t, i, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
RECURSIVE E(_, _), Stmt(_, _), Pat(_, _), Prop(_, _), Key(_, _), ClassItem(_, _), CaseItem(_, _)

\* an expression, in parentheses if it binds less tightly than b
Ep(n, x, b) == IF Binding(n) < b THEN <<"(">> \o E(n, x) \o <<")">> ELSE E(n, x)
Item(n, x) == Ep(n, x, 1)

Braces(n, x, F(_, _)) == <<"{">> \o Indented(n.c, x, F) \o <<"}">>

Initial(p, value, x) ==
  IF value.k = "None" THEN p ELSE p \o Sp(x) \o <<"=">> \o Sp(x) \o Ep(value, x, 1)

Signature(params, body, x) ==
  <<"(">> \o Commas(params.c, x, Pat) \o <<")">> \o Sp(x) \o Braces(body, x, Stmt)

FunctionText(n, x, anonymous) ==
  <<"function">> \o (IF n.t = "*" THEN <<"*">> ELSE <<>>)
  \o (IF n.c[1].k = "None" THEN anonymous ELSE <<" ", n.c[1].t>>)
  \o Signature(n.c[2], n.c[3], x)

ClassText(n, x, anonymous) ==
  <<"class">> \o (IF n.c[1].k = "None" THEN anonymous ELSE <<" ", n.c[1].t>>)
  \o (IF n.c[2].k = "None" THEN <<>> ELSE <<" extends ">> \o Ep(n.c[2], x, 1))
  \o Sp(x) \o Braces(n.c[3], x, ClassItem)

Space(needed, x) == IF needed THEN <<" ">> ELSE Sp(x)

BinaryText(n, x) ==
  LET o == n.t
      left == n.c[1]
      right == n.c[2]
      c == Category(o)
      first == Leftmost(right)
      sl == c = "word" \/ (c # "safe" /\ left.k = "Postfix" /\ Category(left.t) = c)
      sr == \/ c = "word"
            \/ c = "safe" /\ o = "/" /\ first.k = "RegEx"
            \/ c # "safe" /\ first.k = "Prefix" /\ Category(first.t) = c
      b == Power[o]
  IN Ep(left, x, IF o = "**" THEN b + 1 ELSE b) \o Space(sl, x) \o <<o>> \o Space(sr, x)
     \o Ep(right, x, b + 1)

Arguments(ns, x) == <<"(">> \o Commas(ns, x, Item) \o <<")">>

Constructor(n, x) == Ep(n, x, IF CallInside(n) THEN 101 ELSE 17)

PrefixText(n, x) ==
  LET o == n.t
      a == n.c[1]
      c == Category(o)
      space == c = "word" \/ (c # "safe" /\ a.k = "Prefix" /\ Category(a.t) = c)
  IN <<o>> \o (IF space THEN <<" ">> ELSE <<>>)
     \o (IF o # "new" THEN Ep(a, x, 15)
         ELSE IF a.k = "Call" THEN Constructor(a.c[1], x) \o Arguments(Tail(a.c), x)
         ELSE Constructor(a, x))

RECURSIVE Pieces(_, _, _)
Pieces(quasis, exprs, x) ==
  IF exprs = <<>> THEN <<>>
  ELSE <<"${">> \o Sp(x) \o E(exprs[1], x) \o Sp(x) \o <<"}", quasis[1].t>>
       \o Pieces(Tail(quasis), Tail(exprs), x)

TemplateText(n, x) ==
  <<"`", n.c[1].c[1].t>> \o Pieces(Tail(n.c[1].c), n.c[2].c, x) \o <<"`">>

ArrowParams(ps, x) ==
  IF Len(ps) = 1 /\ ps[1].k = "PIdent" THEN <<ps[1].t>>
  ELSE <<"(">> \o Commas(ps, x, Pat) \o <<")">>

RECURSIVE ObjectLines(_, _)
ObjectLines(ps, x) ==
  IF Len(ps) = 1 THEN Nl(x) \o Prop(ps[1], x)
  ELSE Nl(x) \o Prop(ps[1], x) \o <<",">> \o ObjectLines(Tail(ps), x)

E(n, x) ==
  CASE n.k = "Void" -> <<>>
    [] n.k = "This" -> <<"this">>
    [] n.k = "Undefined" -> <<"undefined">>
    [] n.k = "Null" -> <<"null">>
    [] n.k = "True" -> <<"true">>
    [] n.k = "False" -> <<"false">>
    [] n.k \in {"Ident", "Number", "BinaryNum", "String", "RegEx"} -> <<n.t>>
    [] n.k = "Sequence" -> Commas(n.c, x, Item)
    [] n.k = "Array" -> <<"[">> \o Commas(n.c, x, Item) \o <<"]">>
    [] n.k = "Member" ->
         Ep(n.c[1], x, IF n.c[1].k = "Number" /\ AllDigits(n.c[1].t) THEN 101 ELSE 17)
         \o <<".", n.c[2].t>>
    [] n.k = "CMember" -> Ep(n.c[1], x, 17) \o <<"[">> \o E(n.c[2], x) \o <<"]">>
    [] n.k = "Meta" -> <<n.c[1].t, ".", n.c[2].t>>
    [] n.k = "Call" -> Ep(n.c[1], x, 17) \o Arguments(Tail(n.c), x)
    [] n.k = "Binary" -> BinaryText(n, x)
    [] n.k = "Prefix" -> PrefixText(n, x)
    [] n.k = "Postfix" -> E(n.c[1], x) \o <<n.t>>
    [] n.k = "Conditional" ->
         Ep(n.c[1], x, 5) \o Sp(x) \o <<"?">> \o Sp(x) \o Ep(n.c[2], x, 1)
         \o Sp(x) \o <<":">> \o Sp(x) \o Ep(n.c[3], x, 1)
    [] n.k = "Template" -> TemplateText(n, x)
    [] n.k = "Tagged" -> Ep(n.c[1], x, 17) \o TemplateText(n.c[2], x)
    [] n.k = "Spread" -> <<"...">> \o Ep(n.c[1], x, 1)
    [] n.k = "ArrowE" ->
         ArrowParams(n.c[1].c, x) \o Sp(x) \o <<"=>">> \o Sp(x)
         \o Ep(n.c[2], x, IF Bare(n.c[2]) THEN 1 ELSE 101)
    [] n.k = "ArrowB" ->
         ArrowParams(n.c[1].c, x) \o Sp(x) \o <<"=>">> \o Sp(x) \o Braces(n.c[2], x, Stmt)
    [] n.k = "Object" ->
         IF n.c = <<>> THEN <<"{}">>
         ELSE <<"{">> \o ObjectLines(n.c, In(x)) \o Nl(x) \o <<"}">>
    [] n.k = "FunctionExpr" -> FunctionText(n, x, Sp(x))
    [] n.k = "ClassExpr" -> ClassText(n, x, Sp(x))

Key(n, x) == IF n.k = "Computed" THEN <<"[">> \o E(n.c[1], x) \o <<"]">> ELSE <<n.t>>

Prop(n, x) ==
  CASE n.k = "Shorthand" -> <<n.t>>
    [] n.k = "Prop" -> Key(n.c[1], x) \o <<":">> \o Sp(x) \o Ep(n.c[2], x, 1)
    [] n.k = "Method" -> Key(n.c[1], x) \o Signature(n.c[2].c[2], n.c[2].c[3], x)
    [] n.k = "SpreadProp" -> <<"...">> \o Ep(n.c[1], x, 1)

Pat(n, x) ==
  CASE n.k = "PVoid" -> <<>>
    [] n.k = "PIdent" -> <<n.t>>
    [] n.k = "PObject" -> <<"{">> \o Commas(n.c, x, Prop) \o <<"}">>
    [] n.k = "PArray" -> <<"[">> \o Commas(n.c, x, Pat) \o <<"]">>
    [] n.k = "Rest" -> <<"...", n.c[1].t>>
    [] n.k = "PAssign" -> Initial(Pat(n.c[1], x), n.c[2], x)

Modifiers(t) ==
  CASE t \in {"get", "set", "static"} -> <<t \o " ">>
    [] t \in {"static get", "static set"} -> <<t \o " ">>
    [] OTHER -> <<>>

ClassItem(n, x) ==
  CASE n.k = "MethodM" -> Modifiers(n.t) \o Key(n.c[1], x) \o Signature(n.c[2].c[2], n.c[2].c[3], x)
    [] n.k = "FieldM" -> Modifiers(n.t) \o Initial(Key(n.c[1], x), n.c[2], x) \o <<";">>

(***************************************************************************)
(* Statements                                                              *)
(***************************************************************************)
Word(w, n) == IF n.k = "None" THEN <<w \o ";">> ELSE <<w \o " ", n.t, ";">>

DeclaratorText(n, x) == Initial(Pat(n.c[1], x), n.c[2], x)
DeclarationText(n, x) == <<n.t \o " ">> \o Commas(n.c, x, DeclaratorText)

Optional(n, x) == IF n.k = "None" THEN <<>> ELSE E(n, x)

InitText(n, x) ==
  CASE n.k = "None" -> <<>>
    [] n.k = "DeclInit" -> DeclarationText(n, x)
    [] n.k = "ExprInit" -> E(n.c[1], x)

Opening(w, x) == <<w>> \o Sp(x) \o <<"(">>

CaseItem(n, x) ==
  (IF n.c[1].k = "None" THEN <<"default:">> ELSE <<"case ">> \o E(n.c[1], x) \o <<":">>)
  \o Indented(n.c[2].c, x, Stmt)

\* an import's source is kept as written, in the quotes it can be put in
RECURSIVE HasQuote(_, _)
HasQuote(t, i) ==
  IF i > Len(t) THEN FALSE
  ELSE IF SubSeq(t, i, i) = "\\" THEN HasQuote(t, i + 2)
  ELSE SubSeq(t, i, i) = "'" \/ HasQuote(t, i + 1)
SourceString(t) == LET q == IF HasQuote(t, 1) THEN "\"" ELSE "'" IN <<q, t, q>>

Specifier(n, x) ==
  CASE n.k = "ImportDefault" -> <<n.c[1].t>>
    [] n.k = "ImportNs" -> <<"* as ", n.c[1].t>>
    [] n.k = "ImportSpecifier" ->
         IF n.c[1].t = n.c[2].t THEN <<n.c[1].t>> ELSE <<n.c[1].t, " as ", n.c[2].t>>

ImportText(n, x) ==
  LET named == SelectSeq(n.c, LAMBDA s : s.k = "ImportSpecifier")
      whole == SelectSeq(n.c, LAMBDA s : s.k # "ImportSpecifier")
  IN <<"import ">>
     \o (IF n.c = <<>> THEN <<>>
         ELSE Commas(whole, x, Specifier)
              \o (IF named = <<>> THEN <<>>
                  ELSE (IF whole = <<>> THEN <<"{">> ELSE <<",{">>)
                       \o Commas(named, x, Specifier) \o <<"}">>)
              \o <<" from ">>)
     \o SourceString(n.t) \o <<END>>

Stmt(n, x) ==
  CASE n.k = "Empty" -> <<";">>
    [] n.k = "Debugger" -> <<"debugger", END>>
    [] n.k = "Expression" ->
         (IF Bare(n.c[1]) THEN E(n.c[1], x) ELSE <<"(">> \o E(n.c[1], x) \o <<")">>) \o <<";">>
    [] n.k = "Declaration" -> DeclarationText(n, x) \o <<";">>
    [] n.k = "Return" -> IF n.c[1].k = "None" THEN <<"return;">> ELSE <<"return ">> \o E(n.c[1], x) \o <<";">>
    [] n.k = "Break" -> Word("break", n.c[1])
    [] n.k = "Continue" -> Word("continue", n.c[1])
    [] n.k = "Throw" -> <<"throw ">> \o E(n.c[1], x) \o <<";">>
    [] n.k = "If" ->
         Opening("if", x) \o E(n.c[1], x) \o <<")">> \o Sp(x) \o Stmt(n.c[2], x)
         \o (IF n.c[3].k = "None" THEN <<>>
             ELSE Space(n.c[2].k # "Block", x) \o <<"else">> \o Space(n.c[3].k # "Block", x)
                  \o Stmt(n.c[3], x))
    [] n.k = "While" -> Opening("while", x) \o E(n.c[1], x) \o <<")">> \o Sp(x) \o Stmt(n.c[2], x)
    [] n.k = "Do" ->
         <<"do">> \o Space(n.c[1].k # "Block", x) \o Stmt(n.c[1], x)
         \o Opening("while", x) \o E(n.c[2], x) \o <<")", END>>
    [] n.k = "For" ->
         Opening("for", x) \o InitText(n.c[1], x) \o <<";">> \o Sp(x) \o Optional(n.c[2], x)
         \o <<";">> \o Sp(x) \o Optional(n.c[3], x) \o <<")">> \o Sp(x) \o Stmt(n.c[4], x)
    [] n.k = "ForIn" ->
         Opening("for", x)
         \o (IF n.c[1].k = "ExprInit"
             THEN Ep(n.c[1].c[1], x, 11) \o <<" in ">> \o Ep(n.c[2], x, 12)
             ELSE InitText(n.c[1], x) \o <<" in ">> \o E(n.c[2], x))
         \o <<")">> \o Sp(x) \o Stmt(n.c[3], x)
    [] n.k = "ForOf" ->
         Opening("for", x) \o InitText(n.c[1], x) \o <<" of ">> \o E(n.c[2], x) \o <<")">> \o Sp(x)
         \o Stmt(n.c[3], x)
    [] n.k = "Try" ->
         <<"try">> \o Sp(x) \o Braces(n.c[1], x, Stmt)
         \o (IF n.c[2].k = "None" THEN <<>>
             ELSE Sp(x) \o Opening("catch", x) \o Pat(n.c[2].c[1], x) \o <<")">> \o Sp(x)
                  \o Braces(n.c[2].c[2], x, Stmt))
         \o (IF n.c[3].k = "None" THEN <<>>
             ELSE Sp(x) \o <<"finally">> \o Sp(x) \o Braces(n.c[3], x, Stmt))
    [] n.k = "Block" -> Braces(n, x, Stmt)
    [] n.k = "Labeled" -> <<n.t, ":">> \o Sp(x) \o Stmt(n.c[1], x)
    [] n.k = "FunctionDecl" -> FunctionText(n, x, <<>>)
    [] n.k = "ClassDecl" -> ClassText(n, x, <<>>)
    [] n.k = "Switch" -> Opening("switch", x) \o E(n.c[1], x) \o <<")">> \o Braces(n.c[2], x, CaseItem)
    [] n.k = "Import" -> ImportText(n, x)

(***************************************************************************)
(* Programs                                                                *)
(***************************************************************************)
RECURSIVE Join(_, _, _, _)
Join(ps, i, open, text) ==
  IF i > Len(ps) THEN text
  ELSE IF ps[i] = END THEN Join(ps, i + 1, TRUE, text)
  ELSE IF ps[i] = "" THEN Join(ps, i + 1, open, text)
  ELSE Join(ps, i + 1, FALSE, IF open /\ SubSeq(ps[i], 1, 1) # "}" THEN text \o ";" \o ps[i] ELSE text \o ps[i])

RECURSIVE ProgramText(_, _)
ProgramText(ns, x) ==
  IF ns = <<>> THEN <<>>
  ELSE IF Len(ns) = 1 THEN Stmt(ns[1], x)
  ELSE Stmt(ns[1], x) \o Nl(x) \o ProgramText(Tail(ns), x)

Printed(module, x) == Join(ProgramText(module.c, x), 1, FALSE, "")
=============================================================================
