-------------------------------- MODULE Walk --------------------------------
(* The announcements that a visitor receives when a tree is walked, as a stack *)
(* machine.                                                                    *)
(*                                                                             *)
(* The state of a walk is a sequence of items still to be dealt with.  An item *)
(* is an announcement [v, t, s, e] or a part of the tree [v = "visit", n] that *)
(* Expand replaces by its items.  Announcements are                            *)
(*   the kind of a statement or expression  with its text and range            *)
(*   push, pop      a parent has been entered (t is its kind) or left          *)
(*   enter, leave   a scope of kind t                                          *)
(*   list           a statement list of e statements, the first one at s       *)
(*   use, decl      of the name t                                              *)
EXTENDS Tree

Ev(v, t, s, e) == [v |-> v, t |-> t, s |-> s, e |-> e]
Go(n)  == [v |-> "visit", n |-> n]
Gos(ns) == [i \in DOMAIN ns |-> Go(ns[i])]
\* as the target of a destructuring pattern that is written as an expression
Target(n) == [v |-> "target", n |-> n]

Statements ==
  {"Expression", "Declaration", "Return", "Break", "Continue", "Throw", "If", "While", "Do", "For",
   "ForIn", "ForOf", "Try", "Block", "Labeled", "Switch", "FunctionDecl", "ClassDecl", "Import"}
Literals == {"Undefined", "Null", "True", "False", "Number", "BinaryNum", "String", "RegEx"}
Expressions ==
  {"Ident", "Sequence", "Array", "Member", "CMember", "Meta", "Call", "Binary", "Prefix", "Postfix",
   "Conditional", "Template", "Tagged", "Spread", "ArrowE", "ArrowB", "Object", "FunctionExpr",
   "ClassExpr"}

Announced(k) == IF k \in {"ArrowE", "ArrowB"} THEN "Arrow" ELSE k

StatementList(ns) ==
  <<Ev("list", "", IF ns = <<>> THEN 0 ELSE ns[1].s, Len(ns))>> \o Gos(ns)

Scope(kind, items) == <<Ev("enter", kind, 0, 0)>> \o items \o <<Ev("leave", "", 0, 0)>>
Use(t)  == <<Ev("use", t, 0, 0)>>
Decl(t) == <<Ev("decl", t, 0, 0)>>

\* a function's parameters belong to the scope of its body
Callable(params, body) == Scope("function", Gos(params.c) \o StatementList(body.c))

\* what is announced between the entering and leaving of a statement or expression
Inside(n) ==
  CASE n.k = "Ident" -> Use(n.t)
    [] n.k \in {"Member"} -> <<Go(n.c[1])>>
    [] n.k = "Meta" -> <<>>
    [] n.k = "Template" -> Gos(n.c[2].c)
    [] n.k = "Tagged" -> <<Go(n.c[1])>> \o Gos(n.c[2].c[2].c)
    [] n.k = "ArrowE" -> Scope("function", Gos(n.c[1].c) \o <<Go(n.c[2])>>)
    [] n.k = "ArrowB" -> Callable(n.c[1], n.c[2])
    [] n.k = "FunctionExpr" -> Callable(n.c[2], n.c[3])
    [] n.k = "FunctionDecl" -> Decl(n.c[1].t) \o Callable(n.c[2], n.c[3])
    [] n.k = "ClassExpr" -> <<Go(n.c[2])>> \o Gos(n.c[3].c)
    [] n.k = "ClassDecl" -> Decl(n.c[1].t) \o <<Go(n.c[2])>> \o Gos(n.c[3].c)
    [] n.k = "Block" -> Scope("block", StatementList(n.c))
    [] n.k = "Try" ->
         Scope("block", StatementList(n.c[1].c)) \o <<Go(n.c[2])>>
         \o (IF n.c[3].k = "None" THEN <<>> ELSE Scope("block", StatementList(n.c[3].c)))
    [] n.k = "Switch" -> <<Go(n.c[1])>> \o Scope("block", Gos(n.c[2].c))
    [] n.k \in {"Break", "Continue"} -> <<>>
    [] OTHER -> Gos(n.c)

Expand(n) ==
  CASE n.k = "Module" -> StatementList(n.c)
    [] n.k \in Statements ->
         <<Ev(n.k, "", n.s, n.e), Ev("push", n.k, n.s, n.e)>> \o Inside(n) \o <<Ev("pop", "", 0, 0)>>
    [] n.k \in Expressions ->
         <<Ev(Announced(n.k), n.t, n.s, n.e), Ev("push", n.k, n.s, n.e)>> \o Inside(n)
         \o <<Ev("pop", "", 0, 0)>>
    [] n.k = "This" -> <<Ev("This", n.t, n.s, n.e)>>
    [] n.k \in Literals -> <<Ev("Literal", n.t, n.s, n.e)>>
    [] n.k \in {"None", "Void", "PVoid", "Empty", "Debugger", "Key", "BinKey"} -> <<>>
    [] n.k = "Computed" -> <<Go(n.c[1])>>
    [] n.k = "Shorthand" -> Use(n.t)
    [] n.k = "Function" -> Callable(n.c[2], n.c[3])
    [] n.k = "Catch" -> Scope("block", <<Go(n.c[1])>> \o StatementList(n.c[2].c))
    [] n.k = "Case" -> <<Go(n.c[1])>> \o StatementList(n.c[2].c)
    [] n.k = "PIdent" -> Decl(n.t)
    [] n.k = "Rest" -> Decl(n.c[1].t)
    [] n.k = "PObject" -> [i \in DOMAIN n.c |-> Target(n.c[i])]
    [] n.k = "ImportSpecifier" -> Decl(n.c[2].t)
    [] n.k \in {"ImportDefault", "ImportNs"} -> Decl(n.c[1].t)
    [] OTHER -> Gos(n.c)    \* Declarator, inits, properties, class members, other patterns

ExpandTarget(n) ==
  CASE n.k \in {"Ident", "Shorthand"} -> Decl(n.t)
    [] n.k = "Binary" /\ n.t = "=" -> <<Target(n.c[1]), Go(n.c[2])>>
    [] n.k \in {"Object", "Array", "Spread", "SpreadProp"} -> [i \in DOMAIN n.c |-> Target(n.c[i])]
    [] n.k = "Prop" -> <<Go(n.c[1]), Target(n.c[2])>>
    [] OTHER -> <<Go(n)>>

(***************************************************************************)
(* One step of the machine: the item at the front is replaced by its items *)
(* or, if it is an announcement, made                                      *)
(***************************************************************************)
IsPart(item) == item.v \in {"visit", "target"}
ItemsOf(item) == IF item.v = "visit" THEN Expand(item.n) ELSE ExpandTarget(item.n)

\* all announcements of a sequence of items
RECURSIVE Flatten(_, _)
Flatten(items, i) ==
  IF i > Len(items) THEN <<>>
  ELSE (IF IsPart(items[i]) THEN Flatten(ItemsOf(items[i]), 1) ELSE <<items[i]>>)
       \o Flatten(items, i + 1)
Announcements(n) == Flatten(<<Go(n)>>, 1)
=============================================================================
