------------------------------- MODULE Estree -------------------------------
(* The JSON document in the ESTree vocabulary that describes a tree.           *)
(*                                                                             *)
(* A JSON value is a record [j, v, f, c]: its type j (obj, arr, str, num, bool *)
(* or null), its text v, the names f of the fields of an object, and the       *)
(* values c of its fields or elements.  A number is given by the digits v and  *)
(* the power of ten f it is to be multiplied with, without zeros at either end *)
(* of the digits.  An observed number also gives the double a reader makes of  *)
(* it, see Doubles.                                                            *)
EXTENDS Tree, SequencesExt, TLC
D == INSTANCE Doubles

J(j, v, f, c) == [j |-> j, v |-> v, f |-> f, c |-> c]
JStr(t)  == J("str", t, <<>>, <<>>)
JNull    == J("null", "", <<>>, <<>>)
JBool(b) == J("bool", IF b THEN "true" ELSE "false", <<>>, <<>>)
JArr(c)  == J("arr", "", <<>>, c)
JInt(i)  ==
  LET RECURSIVE Reduce(_, _)
      Reduce(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Reduce(m \div 10, e + 1) ELSE <<m, e>>
      r == Reduce(i, 0)
  IN J("num", ToString(r[1]), <<ToString(r[2])>>, <<>>)
JAny     == J("any", "", <<>>, <<>>)        \* the specification leaves the value open
\* fields: a sequence of <<name, value>>
JObj(fields) == J("obj", "", [i \in DOMAIN fields |-> fields[i][1]], [i \in DOMAIN fields |-> fields[i][2]])

Located(type, s, e, fields) ==
  JObj(<<<<"type", JStr(type)>>>> \o fields \o <<<<"start", JInt(s)>>, <<"end", JInt(e)>>>>)

(***************************************************************************)
(* Numbers: decimal numerals as sequences of digits, the highest first     *)
(***************************************************************************)
DigitValues ==
  [ch \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"} |->
    CASE ch \in {"a","A"} -> 10 [] ch \in {"b","B"} -> 11 [] ch \in {"c","C"} -> 12
      [] ch \in {"d","D"} -> 13 [] ch \in {"e","E"} -> 14 [] ch \in {"f","F"} -> 15
      [] ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4
      [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9]

Char(t, i) == SubSeq(t, i, i)
Values(t) == [i \in 1..Len(t) |-> DigitValues[Char(t, i)]]

\* the decimal digits of the number with the digits ds in a radix
InRadix(ds, radix) ==
  LET step(acc, d) == D!Scaled(acc, radix, d)
  IN D!Digits(FoldLeft(step, <<>>, ds))

RECURSIVE NoLeading(_), NoTrailing(_)
NoLeading(d)  == IF d # <<>> /\ d[1] = 0 THEN NoLeading(Tail(d)) ELSE d
NoTrailing(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN NoTrailing(SubSeq(d, 1, Len(d) - 1)) ELSE d

RECURSIVE DigitText(_, _)
DigitText(d, i) == IF i > Len(d) THEN "" ELSE ToString(d[i]) \o DigitText(d, i + 1)

RECURSIVE SmallInt(_, _, _)
SmallInt(d, i, acc) == IF i > Len(d) THEN acc ELSE SmallInt(d, i + 1, 10 * acc + d[i])

MaxInt64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
RECURSIVE AtMost(_, _, _)
AtMost(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ AtMost(a, b, i + 1))
FitsInt64(d) == Len(d) < 19 \/ (Len(d) = 19 /\ AtMost(d, MaxInt64, 1))

\* the value d * 10^e; exact says that a document has to give all of its digits.  Otherwise it
\* gives the double that is nearest to it, in digits that no other double is nearer to.
JNum(d0, e0, exact) ==
  LET d1 == NoLeading(d0)
      d  == NoTrailing(d1)
      e  == e0 + (Len(d1) - Len(d))
  IN IF d = <<>> THEN J("num", "0", <<"0">>, <<>>)
     ELSE J(IF exact THEN "num" ELSE "double", DigitText(d, 1), <<ToString(e)>>, <<>>)

IntegerValue(d) == LET n == NoLeading(d) IN JNum(n, 0, FitsInt64(n))

\* the position of the first character of t from i on that is one of C, Len(t) + 1 if there is none
RECURSIVE Find(_, _, _)
Find(t, i, C) == IF i > Len(t) \/ Char(t, i) \in C THEN i ELSE Find(t, i + 1, C)

DecimalValue(t) ==
  LET x == Find(t, 1, {"e", "E"})
      m == SubSeq(t, 1, x - 1)
      dot == Find(m, 1, {"."})
      whole == Values(SubSeq(m, 1, dot - 1))
      frac == Values(SubSeq(m, dot + 1, Len(m)))
      signed == x < Len(t) /\ Char(t, x + 1) \in {"+", "-"}
      ex == NoLeading(Values(SubSeq(t, IF signed THEN x + 2 ELSE x + 1, Len(t))))
      power == IF x > Len(t) THEN 0
               ELSE IF signed /\ Char(t, x + 1) = "-" THEN -SmallInt(ex, 1, 0) ELSE SmallInt(ex, 1, 0)
  IN IF Len(ex) > 4 THEN JAny
     ELSE IF x > Len(t) /\ dot > Len(m) THEN IntegerValue(whole)
     ELSE JNum(whole \o frac, power - Len(frac), FALSE)

NumberValue(t) ==
  IF Len(t) >= 2 /\ Char(t, 2) \in {"x", "X", "o", "O", "b", "B"}
  THEN IF Len(t) = 2 THEN JAny
       ELSE LET radix == IF Char(t, 2) \in {"x", "X"} THEN 16 ELSE IF Char(t, 2) \in {"o", "O"} THEN 8 ELSE 2
                d == NoLeading(InRadix(Values(SubSeq(t, 3, Len(t))), radix))
            IN IF FitsInt64(d) THEN JNum(d, 0, TRUE)
               ELSE JNum(d, 0, FALSE)
  ELSE DecimalValue(t)

(***************************************************************************)
(* Nodes                                                                   *)
(***************************************************************************)
LogicalOps == {"&&", "||"}
AssignmentOps == {"=", "+=", "-=", "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="}

RECURSIVE X(_)
Xs(ns) == JArr([i \in DOMAIN ns |-> X(ns[i])])

\* holes are null, those at the end are left out
RECURSIVE Sparse(_)
Sparse(ns) ==
  IF ns # <<>> /\ ns[Len(ns)].k \in {"Void", "PVoid"} THEN Sparse(SubSeq(ns, 1, Len(ns) - 1)) ELSE ns
Elements(ns) ==
  LET m == Sparse(ns)
  IN JArr([i \in DOMAIN m |-> IF m[i].k \in {"Void", "PVoid"} THEN JNull ELSE X(m[i])])

Identifier(t, s, e) == Located("Identifier", s, e, <<<<"name", JStr(t)>>>>)
Literal(n, fields) == Located("Literal", n.s, n.e, fields)

RECURSIVE LastSlash(_, _)
LastSlash(t, i) == IF Char(t, i) = "/" THEN i ELSE LastSlash(t, i - 1)
RegexValue(t) ==
  LET i == LastSlash(t, Len(t)) IN
  JObj(<<<<"pattern", JStr(SubSeq(t, 2, i - 1))>>, <<"flags", JStr(SubSeq(t, i + 1, Len(t)))>>>>)

Function(type, n) ==
  Located(type, n.s, n.e,
    <<<<"generator", JBool(n.t = "*")>>, <<"id", X(n.c[1])>>, <<"params", Xs(n.c[2].c)>>,
      <<"body", X(n.c[3])>>>>)

Class(type, n) ==
  Located(type, n.s, n.e,
    <<<<"id", X(n.c[1])>>, <<"superClass", X(n.c[2])>>,
      <<"body", Located("ClassBody", n.c[3].s, n.c[3].e, <<<<"body", Xs(n.c[3].c)>>>>)>>>>)

IsStatic(t) == t \in {"static", "static get", "static set"}
MethodKind(t) ==
  CASE t = "constructor" -> "constructor"
    [] t \in {"get", "static get"} -> "get"
    [] t \in {"set", "static set"} -> "set"
    [] OTHER -> "method"

Computed(key) == JBool(key.k = "Computed")

Property(n, method) ==
  Located("Property", n.s, n.e,
    <<<<"key", X(n.c[1])>>, <<"method", JBool(method)>>, <<"shorthand", JBool(FALSE)>>,
      <<"computed", Computed(n.c[1])>>, <<"value", X(n.c[2])>>, <<"kind", JStr("init")>>>>)

Quasi(q, tail) ==
  Located("TemplateElement", q.s + 1, q.e - 1,
    <<<<"tail", JBool(tail)>>, <<"value", JObj(<<<<"raw", JStr(q.t)>>, <<"cooked", JStr(q.t)>>>>)>>>>)

Update(n, prefix) ==
  Located(IF n.t \in {"++", "--"} THEN "UpdateExpression" ELSE "UnaryExpression", n.s, n.e,
    <<<<"operator", JStr(n.t)>>, <<"argument", X(n.c[1])>>, <<"prefix", JBool(prefix)>>>>)

New(n) ==
  LET a == n.c[1] IN
  Located("NewExpression", n.s, n.e,
    IF a.k = "Call" THEN <<<<"callee", X(a.c[1])>>, <<"arguments", Xs(Tail(a.c))>>>>
    ELSE <<<<"callee", X(a)>>, <<"arguments", JArr(<<>>)>>>>)

At(type, n, fields) == Located(type, n.s, n.e, fields)
Named(type, n, names) == At(type, n, [i \in DOMAIN names |-> <<names[i], X(n.c[i])>>])

X(n) ==
  CASE n.k = "None" -> JNull
    [] n.k = "Name" -> Identifier(n.t, n.s, n.e)
    \* statements
    [] n.k = "Empty" -> At("EmptyStatement", n, <<>>)
    [] n.k = "Debugger" -> At("DebuggerStatement", n, <<>>)
    [] n.k = "Expression" -> Named("ExpressionStatement", n, <<"expression">>)
    [] n.k \in {"Declaration", "DeclInit"} ->
         At("VariableDeclaration", n, <<<<"kind", JStr(n.t)>>, <<"declarations", Xs(n.c)>>>>)
    [] n.k = "Declarator" -> Named("VariableDeclarator", n, <<"id", "init">>)
    [] n.k = "ExprInit" -> X(n.c[1])
    [] n.k = "Return" -> Named("ReturnStatement", n, <<"argument">>)
    [] n.k = "Throw" -> Named("ThrowStatement", n, <<"argument">>)
    [] n.k = "Break" -> Named("BreakStatement", n, <<"label">>)
    [] n.k = "Continue" -> Named("ContinueStatement", n, <<"label">>)
    [] n.k = "If" -> Named("IfStatement", n, <<"test", "consequent", "alternate">>)
    [] n.k = "While" -> Named("WhileStatement", n, <<"test", "body">>)
    [] n.k = "Do" -> Named("DoWhileStatement", n, <<"body", "test">>)
    [] n.k = "For" -> Named("ForStatement", n, <<"init", "test", "update", "body">>)
    [] n.k = "ForIn" -> Named("ForInStatement", n, <<"left", "right", "body">>)
    [] n.k = "ForOf" -> Named("ForOfStatement", n, <<"left", "right", "body">>)
    [] n.k = "Try" -> Named("TryStatement", n, <<"block", "handler", "finalizer">>)
    [] n.k = "Catch" -> Named("CatchClause", n, <<"param", "body">>)
    [] n.k = "Block" -> At("BlockStatement", n, <<<<"body", Xs(n.c)>>>>)
    [] n.k = "Labeled" -> At("LabeledStatement", n, <<<<"label", JStr(n.t)>>, <<"body", X(n.c[1])>>>>)
    [] n.k = "FunctionDecl" -> Function("FunctionDeclaration", n)
    [] n.k \in {"FunctionExpr", "Function"} -> Function("FunctionExpression", n)
    [] n.k = "ClassDecl" -> Class("ClassDeclaration", n)
    [] n.k = "ClassExpr" -> Class("ClassExpression", n)
    [] n.k = "MethodM" ->
         At("MethodDefinition", n,
           <<<<"kind", JStr(MethodKind(n.t))>>, <<"static", JBool(IsStatic(n.t))>>,
             <<"computed", Computed(n.c[1])>>, <<"key", X(n.c[1])>>, <<"value", X(n.c[2])>>>>)
    [] n.k = "FieldM" ->
         At("PropertyDefinition", n,
           <<<<"static", JBool(IsStatic(n.t))>>, <<"computed", Computed(n.c[1])>>,
             <<"key", X(n.c[1])>>, <<"value", X(n.c[2])>>>>)
    [] n.k = "Switch" ->
         At("SwitchStatement", n, <<<<"discriminant", X(n.c[1])>>, <<"cases", Xs(n.c[2].c)>>>>)
    [] n.k = "Case" -> At("SwitchCase", n, <<<<"test", X(n.c[1])>>, <<"consequent", Xs(n.c[2].c)>>>>)
    [] n.k = "Import" ->
         At("ImportDeclaration", n, <<<<"specifiers", Xs(n.c)>>, <<"source", JStr(n.t)>>>>)
    [] n.k = "ImportSpecifier" -> Named("ImportSpecifier", n, <<"imported", "local">>)
    [] n.k = "ImportDefault" -> Named("ImportDefaultSpecifier", n, <<"local">>)
    [] n.k = "ImportNs" -> Named("ImportNamespaceSpecifier", n, <<"local">>)
    \* expressions
    [] n.k = "This" -> At("ThisExpression", n, <<>>)
    [] n.k = "Ident" -> Identifier(n.t, n.s, n.e)
    [] n.k = "Undefined" -> Literal(n, <<<<"raw", JStr("undefined")>>>>)
    [] n.k = "Null" -> Literal(n, <<<<"value", JNull>>, <<"raw", JStr("null")>>>>)
    [] n.k = "True" -> Literal(n, <<<<"value", JBool(TRUE)>>, <<"raw", JStr("true")>>>>)
    [] n.k = "False" -> Literal(n, <<<<"value", JBool(FALSE)>>, <<"raw", JStr("false")>>>>)
    [] n.k \in {"Number", "BinaryNum"} -> Literal(n, <<<<"value", NumberValue(n.t)>>, <<"raw", JStr(n.t)>>>>)
    [] n.k = "String" -> Literal(n, <<<<"value", JStr(SubSeq(n.t, 2, Len(n.t) - 1))>>, <<"raw", JStr(n.t)>>>>)
    [] n.k = "RegEx" -> Literal(n, <<<<"regex", RegexValue(n.t)>>, <<"raw", JStr(n.t)>>>>)
    [] n.k = "Sequence" -> At("SequenceExpression", n, <<<<"expressions", Xs(n.c)>>>>)
    [] n.k = "Array" -> At("ArrayExpression", n, <<<<"elements", Elements(n.c)>>>>)
    [] n.k \in {"Member", "CMember"} ->
         At("MemberExpression", n,
           <<<<"object", X(n.c[1])>>, <<"property", X(n.c[2])>>, <<"computed", JBool(n.k = "CMember")>>>>)
    [] n.k = "Meta" -> Named("MetaProperty", n, <<"meta", "property">>)
    [] n.k = "Call" -> At("CallExpression", n, <<<<"callee", X(n.c[1])>>, <<"arguments", Xs(Tail(n.c))>>>>)
    [] n.k = "Binary" ->
         At(IF n.t \in LogicalOps THEN "LogicalExpression"
            ELSE IF n.t \in AssignmentOps THEN "AssignmentExpression" ELSE "BinaryExpression", n,
           <<<<"operator", JStr(n.t)>>, <<"left", X(n.c[1])>>, <<"right", X(n.c[2])>>>>)
    [] n.k = "Prefix" -> IF n.t = "new" THEN New(n) ELSE Update(n, TRUE)
    [] n.k = "Postfix" -> Update(n, FALSE)
    [] n.k = "Conditional" -> Named("ConditionalExpression", n, <<"test", "consequent", "alternate">>)
    [] n.k = "Template" ->
         LET q == n.c[1].c IN
         At("TemplateLiteral", n,
           <<<<"quasis", JArr([i \in DOMAIN q |-> Quasi(q[i], i = Len(q))])>>, <<"expressions", Xs(n.c[2].c)>>>>)
    [] n.k = "Tagged" -> Named("TaggedTemplateExpression", n, <<"tag", "quasi">>)
    [] n.k = "Spread" -> Named("SpreadElement", n, <<"argument">>)
    [] n.k \in {"ArrowE", "ArrowB"} ->
         At("ArrowFunctionExpression", n, <<<<"params", Xs(n.c[1].c)>>, <<"body", X(n.c[2])>>>>)
    [] n.k = "Object" -> At("ObjectExpression", n, <<<<"properties", Xs(n.c)>>>>)
    [] n.k = "Shorthand" -> Identifier(n.t, n.s, n.e)
    [] n.k = "Prop" -> Property(n, FALSE)
    [] n.k = "Method" -> Property(n, TRUE)
    [] n.k = "SpreadProp" -> Named("SpreadProperty", n, <<"argument">>)
    [] n.k \in {"Key", "BinKey"} -> Identifier(n.t, n.s, n.e)
    [] n.k = "Computed" -> X(n.c[1])
    \* patterns
    [] n.k = "PIdent" -> Identifier(n.t, n.s, n.e)
    [] n.k = "PObject" -> At("ObjectPattern", n, <<<<"keys", Xs(n.c)>>>>)
    [] n.k = "PArray" -> At("ArrayPattern", n, <<<<"elements", Elements(n.c)>>>>)
    [] n.k = "Rest" -> Named("RestElement", n, <<"argument">>)
    [] n.k = "PAssign" -> Named("AssignmentPattern", n, <<"left", "right">>)

Document(m) ==
  LET c == m.c IN
  Located("Program", IF c = <<>> THEN 0 ELSE c[1].s, IF c = <<>> THEN 0 ELSE c[Len(c)].e, <<<<"body", Xs(c)>>>>)

(***************************************************************************)
(* Comparing the document a with one that was observed                     *)
(***************************************************************************)
PowerOf(f) ==
  IF Char(f, 1) = "-" THEN -SmallInt(Values(SubSeq(f, 2, Len(f))), 1, 0) ELSE SmallInt(Values(f), 1, 0)

\* JSON has no number for what is too large for a double
Denotes(b, a) ==
  LET d == Values(a.v)
      e == PowerOf(a.f[1])
      huge == Len(d) + e > 400 \/ (Len(d) + e > 300 /\ D!TooLarge(d, e))
  IN IF huge THEN b.j = "null"
     ELSE /\ b.j = "num"
          /\ IF Len(d) + e < -400 THEN b.v = "0"
             ELSE D!Nearest(d, e, Values(b.f[2]), PowerOf(b.f[3]))

RECURSIVE Same(_, _)
Same(a, b) ==
  CASE a.j = "any" -> TRUE
    [] a.j = "double" -> Denotes(b, a)
    [] a.j # b.j -> FALSE
    [] a.j = "obj" ->
         /\ Len(a.f) = Len(b.f)
         /\ \A i \in DOMAIN a.f :
              LET at == IF a.f[i] = b.f[i] THEN {i} ELSE {k \in DOMAIN b.f : b.f[k] = a.f[i]}
              IN \E k \in at : Same(a.c[i], b.c[k])
    [] a.j = "arr" -> Len(a.c) = Len(b.c) /\ \A i \in DOMAIN a.c : Same(a.c[i], b.c[i])
    [] a.j = "num" -> a.v = b.v /\ a.f[1] = b.f[1]
    [] OTHER -> a.v = b.v /\ a.f = b.f

\* the first place where they differ, for the message
RECURSIVE Differ(_, _, _)
Differ(a, b, path) ==
  IF Same(a, b) THEN path
  ELSE IF a.j = b.j /\ a.j \in {"obj", "arr"} /\ Len(a.c) = Len(b.c) /\ (a.j = "arr" \/ a.f = b.f)
  THEN LET i == CHOOSE i \in DOMAIN a.c : ~Same(a.c[i], b.c[i]) /\ \A k \in 1..(i - 1) : Same(a.c[k], b.c[k])
       IN Differ(a.c[i], b.c[i], Append(path, IF a.j = "obj" THEN a.f[i] ELSE ToString(i)))
  ELSE path \o <<"expected", a.j, a.v, "found", b.j, b.v>>
=============================================================================
