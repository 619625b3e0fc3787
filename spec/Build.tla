-------------------------------- MODULE Build --------------------------------
(* Derivations: a machine that builds the trees of programs by choosing        *)
(* productions of an abstract grammar.  It says which trees are programs at    *)
(* all, so that the other modules can be related to each other on every one:   *)
(* what is printed parses back to the tree, the two printed forms have the     *)
(* same tokens, transforming leaves no arrow function, announcements nest.     *)
(* The programs it completes are also replayed into the implementation.        *)
(*                                                                             *)
(* The state is a derivation: the nodes chosen so far in preorder, each with   *)
(* the number of its children, and the symbols still to be derived, leftmost   *)
(* first.  Fuel bounds how many productions other than the plainest one are    *)
(* used.                                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

La == INSTANCE Parse
Pr == INSTANCE Print
Sc == INSTANCE Scopes
Ar == INSTANCE Arrows

CONSTANTS Fuel,       \* how many productions may cost something
          Most,       \* the greatest length of a list
          Infix,      \* the infix operators to use
          Start,      \* the symbol of each statement of the program
          Greedy      \* whether what is left is spent before the derivation ends

VARIABLES out,        \* the nodes so far: [k, t, n]
          todo,       \* the symbols still to be derived
          fuel        \* what may still be spent
vars == <<out, todo, fuel>>

(***************************************************************************)
(* The abstract grammar: a production is a node [k, t], the symbols of its *)
(* children and what it costs                                              *)
(***************************************************************************)
P(k, t, c, w) == [k |-> k, t |-> t, c |-> c, w |-> w]

Times(x, n) == [i \in 1..n |-> x]
\* a node with a list of up to Most children, from m on
Lists(k, t, x, m) == {P(k, t, Times(x, n), n) : n \in m..Most}

Assigning == La!AssignOps
Relational == {"<", ">", "<=", ">=", "instanceof", "in"}

Leaves(w) ==
  {P(k, "", <<>>, w) : k \in {"This", "Null", "True", "False", "Undefined"}}
  \cup {P("Number", t, <<>>, w) : t \in {"7", "1.5", "0x1F"}}
  \cup {P("BinaryNum", "0b11", <<>>, w), P("String", "'s'", <<>>, w), P("String", "\"\\\"\"", <<>>, w),
        P("RegEx", "/r[/]/g", <<>>, w), P("Ident", "b", <<>>, w)}

Templates(w) == {P("Template", "", <<"quasis" \o ToString(n), "exprs" \o ToString(n)>>, w + n) : n \in 0..2}

\* what may be assigned to
Targets ==
  {P("Ident", "a", <<>>, 0), P("Member", "", <<"e", "name">>, 1), P("CMember", "", <<"e", "e">>, 1)}
  \cup Lists("Object", "", "prop", 1) \cup Lists("Array", "", "element", 1)

\* binary operations at the head of a for loop are not those with `in`
BinaryOps(ops) == {P("Binary", o, <<"e", "e">>, 1) : o \in ops \ Assigning}
                  \cup {P("Binary", o, <<"target", "e">>, 1) : o \in ops \cap Assigning}

NoIn ==
  {P("Ident", "a", <<>>, 0)} \cup Leaves(1)
  \cup {P("Prefix", o, <<"e">>, 1) : o \in La!PrefixOps}
  \cup {P("Prefix", "new", <<"constructed">>, 1), P("Meta", "", <<"new", "target name">>, 1)}
  \cup {P("Postfix", o, <<"target">>, 1) : o \in {"++", "--"}}
  \cup BinaryOps(Infix \ {"in"})
  \cup {P("Conditional", "", <<"e", "e", "e">>, 1)}
  \cup {P("Sequence", "", Times("e", n), n - 1) : n \in 2..(Most + 1)}
  \cup {P("Array", "", <<>>, 1), P("Array", "", <<"item">>, 1), P("Array", "", <<"hole", "element">>, 1),
        P("Array", "", <<"element", "hole">>, 1), P("Array", "", <<"item", "element">>, 2)}
  \cup {P("Object", "", <<>>, 1)} \cup Lists("Object", "", "prop", 1)
  \cup {P("Member", "", <<"e", "name">>, 1), P("CMember", "", <<"e", "e">>, 1)}
  \cup {P("Call", "", <<"e">> \o Times("item", n), 1 + n) : n \in 0..Most}
  \cup Templates(1) \cup {P("Tagged", "", <<"e", "template">>, 1)}
  \cup {P("ArrowE", "", <<"arrow params", "e">>, 1), P("ArrowB", "", <<"arrow params", "body">>, 1)}
  \cup {P("FunctionExpr", t, <<n, "params", "body">>, 1) : t \in {"", "*"}, n \in {"none", "name"}}
  \cup {P("ClassExpr", "", <<n, x, "class body">>, 1) : n \in {"none", "name"}, x \in {"none", "e"}}

Key == {P("Key", "k", <<>>, 0)}
AnyKey ==
  Key \cup {P("Key", t, <<>>, 1) : t \in {"if", "'s t'", "1"}}
  \cup {P("BinKey", "0b1", <<>>, 1), P("Computed", "", <<"e">>, 1)}
ClassKey == Key \cup {P("Key", t, <<>>, 1) : t \in {"if", "1"}}
            \cup {P("BinKey", "0b1", <<>>, 1), P("Computed", "", <<"e">>, 1)}

Pattern ==
  {P("PIdent", "p", <<>>, 0), P("PArray", "", <<>>, 1), P("PArray", "", <<"pattern item">>, 1),
   P("PArray", "", <<"pattern hole", "pattern item">>, 1), P("PArray", "", <<"pattern item", "pattern hole">>, 1),
   P("PObject", "", <<>>, 1)}
  \cup Lists("PObject", "", "prop", 1)

DeclKinds == {"var", "let", "const"}

\* statements that end with an if that has no else
OpenIf(end) == {P("If", "", <<"e", "s", "none">>, 1)}

Nesting(x) ==
  {P("If", "", <<"e", "closed", x>>, 1), P("While", "", <<"e", x>>, 1), P("Labeled", "l", <<x>>, 1),
   P("For", "", <<"init", "e or none", "e or none", x>>, 1),
   P("ForIn", "", <<"in init", "e", x>>, 1), P("ForOf", "", <<"of init", "e", x>>, 1)}

Plain ==
  {P("Empty", "", <<>>, 1), P("Debugger", "", <<>>, 1), P("Expression", "", <<"e">>, 0)}
  \cup {P("Declaration", t, Times("declarator", n), n) : t \in DeclKinds, n \in 1..Most}
  \cup {P("Return", "", <<"e or none">>, 1), P("Throw", "", <<"e">>, 1)}
  \cup {P(k, "", <<n>>, 1) : k \in {"Break", "Continue"}, n \in {"none", "name"}}
  \cup {P("Do", "", <<"s", "e">>, 1)}
  \cup {P("Try", "", <<"body", "catch", "none">>, 1), P("Try", "", <<"body", "none", "body">>, 1),
        P("Try", "", <<"body", "catch", "body">>, 1)}
  \cup Lists("Block", "", "s", 1) \cup {P("Block", "", <<>>, 1)}
  \cup {P("FunctionDecl", t, <<"name", "params", "body">>, 1) : t \in {"", "*"}}
  \cup {P("ClassDecl", "", <<"name", x, "class body">>, 1) : x \in {"none", "e"}}
  \cup {P("Switch", "", <<"e", "cases">>, 1)}
  \cup {P("Import", t, c, 1) : t \in {"m", "m'n"},
        c \in {<<>>, <<"import default">>, <<"import ns">>, <<"import default", "import ns">>,
               <<"import name">>, <<"import as", "import name">>, <<"import default", "import as">>}}

Productions ==
  "e"            :> NoIn \cup BinaryOps(Infix \cap {"in"})
  @@ "no in"     :> NoIn
  @@ "target"    :> Targets
  @@ "item"      :> NoIn \cup BinaryOps(Infix \cap {"in"}) \cup {P("Spread", "", <<"e">>, 1)}
  @@ "element"   :> NoIn \cup {P("Spread", "", <<"e">>, 1)}
  @@ "hole"      :> {P("Void", "", <<>>, 0)}
  @@ "template"  :> Templates(0)
  @@ "name"      :> {P("Name", "n", <<>>, 0)}
  @@ "new"       :> {P("Name", "new", <<>>, 0)}
  @@ "target name" :> {P("Name", "target", <<>>, 0)}
  @@ "none"      :> {P("None", "", <<>>, 0)}
  @@ "constructed" :> NoIn \cup BinaryOps(Infix \cap {"in"})
  @@ "e or none" :> {P("None", "", <<>>, 0)} \cup NoIn
  @@ "quasis0"   :> {P("List", "", <<"quasi">>, 0)}
  @@ "quasis1"   :> {P("List", "", <<"quasi", "quasi">>, 0)}
  @@ "quasis2"   :> {P("List", "", <<"quasi", "quasi", "quasi">>, 0)}
  @@ "quasi"     :> {P("Quasi", "", <<>>, 0), P("Quasi", "$ \\` }", <<>>, 1)}
  @@ "exprs0"    :> {P("List", "", <<>>, 0)}
  @@ "exprs1"    :> {P("List", "", <<"e">>, 0)}
  @@ "exprs2"    :> {P("List", "", <<"e", "e">>, 0)}
  @@ "prop"      :> {P("Shorthand", "h", <<>>, 0), P("Prop", "", <<"key", "e">>, 1), P("SpreadProp", "", <<"e">>, 1),
                     P("Method", "", <<"key", "function">>, 1)}
  @@ "key"       :> AnyKey
  @@ "class key" :> ClassKey
  @@ "word key"  :> Key
  @@ "constructor" :> {P("Key", "constructor", <<>>, 0)}
  @@ "function"  :> {P("Function", "", <<"none", "params", "body">>, 0)}
  @@ "params"    :> {P("List", "", Times("param", n), n) : n \in 0..Most}
                    \cup {P("List", "", Append(Times("param", n), "rest"), n + 1) : n \in 0..(Most - 1)}
  @@ "param"     :> Pattern \cup {P("PAssign", "", <<"pattern", "e">>, 1)}
  @@ "rest"      :> {P("Rest", "", <<"name">>, 0)}
  @@ "arrow params" :> {P("List", "", Times("arrow param", n), IF n = 1 THEN 0 ELSE 1) : n \in 0..Most}
  @@ "arrow param" :> {P("PIdent", "p", <<>>, 0), P("PAssign", "", <<"arrow name", "e">>, 1)}
  @@ "arrow name" :> {P("PIdent", "p", <<>>, 0)}
  @@ "pattern"   :> Pattern
  @@ "pattern item" :> Pattern \cup {P("PAssign", "", <<"pattern", "e">>, 1)}
  @@ "pattern hole" :> {P("PVoid", "", <<>>, 0)}
  @@ "body"      :> Lists("Block", "", "s", 0)
  @@ "class body" :> Lists("Block", "", "member", 0)
  @@ "member"    :> {P("MethodM", t, <<"class key", "function">>, 0) : t \in {""}}
                    \cup {P("MethodM", "static", <<"class key", "function">>, 1),
                          P("MethodM", "constructor", <<"constructor", "function">>, 1)}
                    \cup {P("MethodM", t, <<"word key", "function">>, 1) : t \in {"get", "set", "static get", "static set"}}
                    \cup {P("FieldM", t, <<"class key", "e">>, 1) : t \in {"", "static"}}
  @@ "cases"     :> Lists("Block", "", "case", 0)
  @@ "case"      :> {P("Case", "", <<x, "statements">>, 0) : x \in {"none", "e"}}
  @@ "statements" :> Lists("List", "", "s", 0)
  @@ "catch"     :> {P("Catch", "", <<"pattern", "body">>, 0)}
  @@ "declarator" :> {P("Declarator", "", <<"pattern", "none">>, 0), P("Declarator", "", <<"pattern", "e">>, 1)}
  @@ "bare declarator" :> {P("Declarator", "", <<"pattern", "none">>, 0)}
  @@ "init"      :> {P("None", "", <<>>, 0), P("ExprInit", "", <<"no in">>, 1)}
                    \cup {P("DeclInit", t, <<"declarator">>, 1) : t \in DeclKinds}
  @@ "in init"   :> {P("ExprInit", "", <<"e">>, 0)} \cup {P("DeclInit", t, <<"bare declarator">>, 1) : t \in DeclKinds}
  @@ "of init"   :> {P("ExprInit", "", <<"no in">>, 0)} \cup {P("DeclInit", t, <<"declarator">>, 1) : t \in DeclKinds}
  @@ "import default" :> {P("ImportDefault", "", <<"name">>, 0)}
  @@ "import ns" :> {P("ImportNs", "", <<"name">>, 0)}
  @@ "import name" :> {P("ImportSpecifier", "", <<"name", "name">>, 0)}
  @@ "import as" :> {P("ImportSpecifier", "", <<"name", "other name">>, 0)}
  @@ "other name" :> {P("Name", "o", <<>>, 0)}
  @@ "closed"    :> Plain \cup Nesting("closed")
  @@ "s"         :> Plain \cup Nesting("s") \cup OpenIf("s")
  @@ "es"        :> {P("Expression", "", <<"e">>, 0)}

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
Init == \E n \in 1..2 :
  /\ out = <<[k |-> "Module", t |-> "", n |-> n]>>
  /\ todo = Times(Start, n)
  /\ fuel = Fuel - (n - 1)

Derive ==
  /\ todo # <<>>
  /\ \E p \in Productions[todo[1]] :
       /\ p.w <= fuel
       /\ Greedy /\ fuel > 0 /\ Len(todo) = 1 =>
            p.w > 0 \/ p.c # <<>> \/ \A q \in Productions[todo[1]] : q.w = 0 \/ q.w > fuel
       /\ out' = Append(out, [k |-> p.k, t |-> p.t, n |-> Len(p.c)])
       /\ todo' = p.c \o Tail(todo)
       /\ fuel' = fuel - p.w

Complete == todo = <<>>
Spec == Init /\ [][Derive]_vars

\* the tree of a complete derivation
Up(x, st) == <<La!N(x.k, x.t, 0, 0, [i \in 1..x.n |-> st[i]])>> \o SubSeq(st, x.n + 1, Len(st))
Module == FoldRight(Up, out, <<>>)[1]

(***************************************************************************)
(* Texts as sources                                                        *)
(***************************************************************************)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} \cup {"\n"} |->
           IF c = "\n" THEN 10 ELSE CHOOSE i \in 32..126 : SubSeq(Ascii, i - 31, i - 31) = c]
SourceOf(text) == [b |-> [i \in 1..Len(text) |-> Code[SubSeq(text, i, i)]], s |-> text, n |-> Len(text)]

(***************************************************************************)
(* What holds of every complete program                                    *)
(***************************************************************************)
\* a mistake is reported with the program it was found on
Unless(cond, what, text) == cond \/ (PrintT(<<"WRONG", what, text>>) /\ FALSE)

\* both forms of a tree mean the tree
Means(m, x, text) ==
  LET p == La!Parse(SourceOf(text)) IN
  Unless(p.ok /\ La!Strip(p.n) = m, "printed text parses back to the tree", text)

\* every part lies within the whole
RECURSIVE Inside(_)
Inside(n) ==
  \A i \in DOMAIN n.c :
    /\ n.c[i].k \notin {"None", "List"} /\ n.k \notin {"Module", "List", "Call"} =>
         n.s <= n.c[i].s /\ n.c[i].s <= n.c[i].e /\ n.c[i].e <= n.e
    /\ Inside(n.c[i])

\* the positions of a parsed program nest
Positions(text) ==
  LET p == La!Parse(SourceOf(text)) IN Unless(p.ok => Inside(p.n), "ranges nest", text)

\* announcements are properly nested and every statement and expression is announced once
RECURSIVE Nest(_, _, _)
Nest(evs, i, open) ==
  IF i > Len(evs) THEN open = <<>>
  ELSE CASE evs[i].v \in {"push", "enter"} -> Nest(evs, i + 1, Append(open, evs[i].v))
         [] evs[i].v = "pop" -> open # <<>> /\ open[Len(open)] = "push" /\ Nest(evs, i + 1, SubSeq(open, 1, Len(open) - 1))
         [] evs[i].v = "leave" -> open # <<>> /\ open[Len(open)] = "enter" /\ Nest(evs, i + 1, SubSeq(open, 1, Len(open) - 1))
         [] OTHER -> Nest(evs, i + 1, open)

HowMany(evs, V) == Len(SelectSeq(evs, LAMBDA ev : ev.v \in V))

Walks(m, text) ==
  LET evs == Sc!Announcements(m)
      sc == Sc!Fold(Sc!Initial, evs, 1)
      names == {n.t : n \in {x \in {La!Nodes(m)[i] : i \in DOMAIN La!Nodes(m)} : x.k = "Ident"}}
  IN /\ Unless(Nest(evs, 1, <<>>), "announcements nest", text)
     /\ Unless(Len(sc) = 1, "every scope is closed", text)
     /\ Unless(Sc!CountScopes(sc[1]) = 1 + HowMany(evs, {"enter"}), "every scope is there", text)
     /\ Unless(HowMany(evs, {"Ident"}) <= HowMany(evs, {"use"}), "every identifier is a use", text)

Transforms(m, text) ==
  LET t == Ar!Transformed(m) IN
  /\ Unless(~La!Contains(t, Ar!ArrowKinds), "no arrow function is left", text)
  /\ Unless(Ar!Transformed(t) = t, "a second transformation changes nothing", text)
  /\ Unless(La!Contains(m, Ar!ArrowKinds) \/ t = m, "nothing else is changed", text)
  /\ Unless(Ar!Count(t, {"FunctionExpr"}) = Ar!Count(m, {"FunctionExpr", "ArrowE", "ArrowB"}),
            "every arrow function is a function", text)
  /\ t # m => Means(t, Pr!Minified, Pr!Printed(t, Pr!Minified)) /\ Means(t, Pr!Readable, Pr!Printed(t, Pr!Readable))

Relations ==
  Complete =>
    LET m == Module
        text == Pr!Printed(m, Pr!Minified)
        readable == Pr!Printed(m, Pr!Readable)
    IN /\ Means(m, Pr!Minified, text) /\ Means(m, Pr!Readable, readable)
       /\ Positions(text) /\ Positions(readable)
       /\ Walks(m, text) /\ Transforms(m, text)

\* always true: the complete programs, to be replayed
Emit == Complete => PrintT(<<"P", ToJson(<<Pr!Printed(Module, Pr!Minified), Pr!Printed(Module, Pr!Readable)>>)>>)
=============================================================================
