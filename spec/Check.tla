------------------------------- MODULE Check -------------------------------
(* Conformance: records of what the implementation did, checked one by one     *)
(* against the specification.  A behaviour of this module consumes one record  *)
(* per step; a record that the specification does not allow is reported and    *)
(* the rest is still checked.                                                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

La == INSTANCE Parse     \* the language: tokens and grammar
Pr == INSTANCE Print
Sc == INSTANCE Scopes    \* with Walk
Ar == INSTANCE Arrows
Es == INSTANCE Estree
Re == INSTANCE Report
Bi == INSTANCE Binding

CONSTANT File
R == ndJsonDeserialize(File)

VARIABLES l,      \* the record that is next
          bad     \* how many were not allowed
vars == <<l, bad>>

\* complaints are sequences of strings
Fine == <<>>
Unless(cond, what) == IF cond THEN Fine ELSE <<what>>

Strip(n) == La!Strip(n)
Kinds(n) == LET ns == La!Nodes(n) IN {ns[i].k : i \in DOMAIN ns}

\* where two trees differ
RECURSIVE Path(_, _, _)
Path(a, b, p) ==
  IF a = b THEN p
  ELSE IF a.k # b.k THEN p \o ": " \o a.k \o " expected, " \o b.k \o " found"
  ELSE IF a.t # b.t THEN p \o a.k \o ": text " \o a.t \o " expected, " \o b.t \o " found"
  ELSE IF a.s # b.s \/ a.e # b.e
  THEN p \o a.k \o ": " \o ToString(<<a.s, a.e>>) \o " expected, " \o ToString(<<b.s, b.e>>) \o " found"
  ELSE IF Len(a.c) # Len(b.c)
  THEN p \o a.k \o ": " \o ToString(Len(a.c)) \o " parts expected, " \o ToString(Len(b.c)) \o " found"
  ELSE LET i == CHOOSE i \in DOMAIN a.c : a.c[i] # b.c[i] /\ \A j \in 1..(i - 1) : a.c[j] = b.c[j]
       IN Path(a.c[i], b.c[i], p \o a.k \o "/" \o ToString(i) \o "/")

SameTree(a, b, what) == IF a = b THEN Fine ELSE <<what \o " " \o Path(a, b, "")>>

(***************************************************************************)
(* Tokens                                                                  *)
(***************************************************************************)
Observable(S, t) ==
  [k |-> t.k, s |-> t.s, e |-> t.e, a |-> t.a, x |-> La!Slice(S, t.s, t.e),
   p |-> CASE t.k \in {"TPLO", "TPLC"} -> La!Slice(S, t.q[1], t.q[2])
           [] t.k = "ACC" -> La!Slice(S, t.p, t.e)
           [] OTHER -> ""]

JudgeLex(r) ==
  LET ts == La!Tokens(r.S, r.d)
      o == r.lex
      Agree(i) == i <= Len(o) /\ Observable(r.S, ts[i]) = o[i]
  IN IF Len(ts) = Len(o) /\ \A i \in DOMAIN ts : Agree(i) THEN Fine
     ELSE LET at == {i \in DOMAIN ts : ~Agree(i)} IN
          IF at = {} THEN <<"more tokens than expected: " \o ToString(Len(o))>>
          ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j IN
               <<"token " \o ToString(i) \o ": expected " \o ToString(Observable(r.S, ts[i])) \o ", found "
                 \o (IF i <= Len(o) THEN ToString(o[i]) ELSE "nothing")>>

(***************************************************************************)
(* Trees and errors                                                        *)
(***************************************************************************)
Accepts(r, p) ==
  IF p.ok = r.parse.ok THEN Fine
  ELSE IF p.ok THEN <<"a program is rejected at " \o ToString(r.parse.errs[1].s)>>
  ELSE <<"accepted, but no program from " \o ToString(<<p.t.k, p.t.s, p.t.e>>) \o " on">>

\* the structure alone
JudgeStructure(r) ==
  LET p == La!Parse(r.S) IN
  IF p.ok # r.parse.ok THEN Accepts(r, p)
  ELSE IF p.ok THEN SameTree(Strip(p.n), Strip(r.parse.n), "tree") ELSE Fine

\* the positions of the nodes that are there
JudgePositions(r) ==
  LET p == La!Parse(r.S) IN
  IF p.ok /\ r.parse.ok /\ Strip(p.n) = Strip(r.parse.n) THEN SameTree(p.n, r.parse.n, "tree") ELSE Fine

\* the same source behind d bytes of padding
JudgeShifted(r) ==
  LET p == La!Parse(r.S) IN
  IF p.ok /\ r.parse.ok /\ Strip(p.n) = Strip(r.parse.n)
  THEN SameTree(La!N("Module", "", 0, 0, [i \in DOMAIN p.n.c |-> La!Shift(p.n.c[i], r.by)]), r.parse.n,
                "after " \o ToString(r.by) \o " bytes: tree")
  ELSE Fine

Exact(S, err) ==
  /\ err.s <= err.e /\ err.e <= S.n
  /\ err.x = La!Slice(S, err.s, err.e)

JudgeErrors(r) ==
  LET p == La!Parse(r.S)
      o == r.parse
      errs == o.errs
  IN
  IF p.ok # o.ok THEN Accepts(r, p)
  ELSE IF o.ok
  THEN Unless(Kinds(o.n) \cap {"Error", "ERR"} = {}, "an accepted module has an error placeholder")
  ELSE IF errs = <<>> THEN <<"rejected without an error">>
  ELSE Unless(errs[1].k = p.t.k /\ errs[1].s = p.t.s /\ errs[1].e = p.t.e,
              "first error: expected " \o ToString(<<p.t.k, p.t.s, p.t.e>>) \o ", found " \o ToString(errs[1]))
       \o Unless(\A i \in DOMAIN errs : Exact(r.S, errs[i]), "an error does not give the text at its range: " \o ToString(errs))
       \o Unless(\A i \in 2..Len(errs) : errs[i - 1].s <= errs[i].s, "errors are not in source order: " \o ToString(errs))

\* several layouts of one program: r.S of the first, r.Ss and r.parses of all
JudgeLayouts(r) ==
  LET ps == [i \in DOMAIN r.Ss |-> La!Parse(r.Ss[i])]
      ts == [i \in DOMAIN ps |-> IF ps[i].ok THEN Strip(ps[i].n) ELSE La!None]
      os == [i \in DOMAIN ps |-> IF r.parses[i].ok THEN Strip(r.parses[i].n) ELSE La!None]
      RECURSIVE Go(_)
      Go(i) == IF i > Len(ts) THEN Fine
               ELSE IF ts[i] = ts[1] /\ os[i] # os[1]
               THEN <<"layout " \o ToString(i) \o " differs from layout 1: "
                      \o (IF os[i].k = "None" \/ os[1].k = "None" THEN "rejected" ELSE Path(os[1], os[i], ""))>>
               ELSE IF ts[i] # os[i]
               THEN <<"layout " \o ToString(i) \o ": "
                      \o (IF os[i].k = "None" THEN "rejected" ELSE IF ts[i].k = "None" THEN "accepted"
                          ELSE Path(ts[i], os[i], ""))>>
               ELSE Go(i + 1)
  IN Go(1)

(***************************************************************************)
(* Printing                                                                *)
(***************************************************************************)
RoundTrip(n, q, what) ==
  LET p == La!Parse(q.src) IN
  (IF ~p.ok THEN <<what \o " text is no program from " \o ToString(<<p.t.k, p.t.s, p.t.e>>) \o " on: " \o q.src.s>>
   ELSE SameTree(Strip(n), Strip(p.n), what \o " text " \o q.src.s \o " means another program:"))
  \o (IF ~q.re.ok THEN <<what \o " text is rejected: " \o q.src.s>>
      ELSE SameTree(Strip(n), q.re.n, what \o " text " \o q.src.s \o " parses to another tree:"))

JudgeRoundTrip(r) ==
  IF ~r.parse.ok THEN Fine
  ELSE RoundTrip(r.parse.n, r.print.pretty, "readable") \o RoundTrip(r.parse.n, r.print.min, "minified")

JudgeText(r) ==
  IF ~r.parse.ok THEN Fine
  ELSE LET n == r.parse.n
           p == r.print.pretty
           m == r.print.min
           ep == Pr!Printed(n, Pr!Readable)
           em == Pr!Printed(n, Pr!Minified)
       IN Unless(p.src.s = ep, "readable text: expected " \o ep \o "  found " \o p.src.s)
          \o Unless(m.src.s = em, "minified text: expected " \o em \o "  found " \o m.src.s)
          \o Unless(p.re.ok => p.re.pretty = p.src.s, "readable text printed again differs: " \o p.re.pretty)
          \o Unless(m.re.ok => m.re.min = m.src.s, "minified text printed again differs: " \o m.re.min)
          \o Unless(p.re.ok => p.re.min = m.src.s, "readable text minified differs: " \o p.re.min)
          \o Unless(m.re.ok => m.re.pretty = p.src.s, "minified text made readable differs: " \o m.re.pretty)

\* r.texts: what the layouts r.Ss of one program print as
JudgeTexts(r) ==
  LET os == [i \in DOMAIN r.parses |-> IF r.parses[i].ok THEN Strip(r.parses[i].n) ELSE La!None]
      at == {i \in DOMAIN os : os[i] = os[1] /\ r.texts[i] # r.texts[1]}
  IN IF os[1].k = "None" \/ at = {} THEN Fine
     ELSE LET i == CHOOSE i \in at : TRUE IN
          <<"layout " \o ToString(i) \o " prints differently: " \o ToString(r.texts[1]) \o " and " \o ToString(r.texts[i])>>

(***************************************************************************)
(* Visitors, scopes, transformation                                        *)
(***************************************************************************)
JudgeWalk(r) ==
  IF ~r.parse.ok THEN Fine
  ELSE LET a == Sc!Announcements(r.parse.n)
           ev == r.walk.ev
           Agree(i) == i <= Len(ev) /\ a[i].v = ev[i].v /\ a[i].t = ev[i].t /\ a[i].s = ev[i].s /\ a[i].e = ev[i].e
                       /\ ev[i].same
       IN (IF Len(a) = Len(ev) /\ \A i \in DOMAIN a : Agree(i) THEN Fine
           ELSE LET at == {i \in DOMAIN a : ~Agree(i)} IN
                IF at = {} THEN <<"more announcements than expected: " \o ToString(ev[Len(a) + 1])>>
                ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j IN
                     <<"announcement " \o ToString(i) \o ": expected " \o ToString(a[i]) \o ", found "
                       \o (IF i <= Len(ev) THEN ToString(ev[i]) ELSE "nothing")>>)
          \o Unless(r.walk.same, "the walk changes the tree")

RECURSIVE Bare(_), Linked(_)
Bare(s) == [kind |-> s.kind, this |-> s.this, sup |-> s.sup, used |-> s.used, decl |-> s.decl,
            ch |-> [i \in DOMAIN s.ch |-> Bare(s.ch[i])]]
Linked(s) == s.linked /\ s.found /\ \A i \in DOMAIN s.ch : Linked(s.ch[i])

\* names as sets: the order in which a scope lists them is not part of the property
RECURSIVE AsSets(_)
AsSets(s) == <<s.kind, s.this, s.sup, Range(s.used), Len(s.used), Range(s.decl), Len(s.decl),
               [i \in DOMAIN s.ch |-> AsSets(s.ch[i])]>>

RECURSIVE ScopePath(_, _, _)
ScopePath(a, b, p) ==
  IF a.kind # b.kind \/ a.this # b.this \/ a.sup # b.sup \/ Range(a.used) # Range(b.used) \/ Len(a.used) # Len(b.used)
     \/ Range(a.decl) # Range(b.decl) \/ Len(a.decl) # Len(b.decl) \/ Len(a.ch) # Len(b.ch)
  THEN p \o "expected " \o ToString([a EXCEPT !.ch = Len(a.ch)]) \o ", found " \o ToString([b EXCEPT !.ch = Len(b.ch)])
  ELSE LET i == CHOOSE i \in DOMAIN a.ch : AsSets(a.ch[i]) # AsSets(b.ch[i])
       IN ScopePath(a.ch[i], b.ch[i], p \o ToString(i) \o "/")

JudgeScopes(r) ==
  IF ~r.parse.ok THEN Fine
  ELSE LET a == Sc!Analysis(r.parse.n)
           b == Bare(r.scopes.root)
       IN (IF AsSets(a) = AsSets(b) THEN Fine ELSE <<"scope " \o ScopePath(a, b, "/")>>)
          \o Unless(Linked(r.scopes.root), "a scope is not linked to its parent, or a name is not found in it")
          \o Unless(r.scopes.same, "the analysis changes the tree")

JudgeTransform(r) ==
  IF ~r.parse.ok THEN Fine
  ELSE LET t == Ar!Transformed(r.parse.n)
           x == r.transform
           Means(S, what) ==
             LET p == La!Parse(S) IN
             IF ~p.ok THEN <<what \o " text of the transformed program is no program: " \o S.s>>
             ELSE IF La!Contains(p.n, Ar!ArrowKinds) THEN <<what \o " text has arrow functions: " \o S.s>>
             ELSE SameTree(Strip(t), Strip(p.n), what \o " text " \o S.s \o " means another program:")
       IN SameTree(t, x.n, "transformed tree")
          \o Unless(x.twice, "a second transformation changes the tree")
          \o Means(x.pretty, "readable") \o Means(x.min, "minified")

(***************************************************************************)
(* Exports, reports, the facade                                            *)
(***************************************************************************)
RECURSIVE JoinWith(_, _, _)
JoinWith(ps, i, sep) == IF i > Len(ps) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o ps[i] \o JoinWith(ps, i + 1, sep)

JudgeEstree(r) ==
  IF ~r.parse.ok THEN Fine
  ELSE LET d == Es!Document(r.parse.n)
           Doc(x, what) ==
             IF x.j = "bad" THEN <<what \o " document is not well-formed: " \o x.v>>
             ELSE IF Es!Same(d, x) THEN Fine
             ELSE <<what \o " document: " \o JoinWith(Es!Differ(d, x, <<>>), 1, " ")>>
       IN Doc(r.doc, "compact") \o (IF r.docp = r.doc THEN Fine ELSE Doc(r.docp, "readable"))

JudgeReport(r) ==
  LET t == Re!Report(r.S, r.s, r.e)
  IN Unless(t = r.report, "expected " \o t \o " found " \o r.report)

Reports(S, errs) ==
  "Error: " \o JoinWith([i \in DOMAIN errs |-> Re!Report(S, errs[i].s, errs[i].e)], 1, "\n")

JudgeFacade(r) ==
  LET f == r.facade
      Is(x, y, what) == Unless(x = y, what \o ": expected " \o y \o " found " \o x)
  IN
  IF r.parse.ok
  THEN LET n == r.parse.n IN
       Is(f.tp, Pr!Printed(n, Pr!Readable), "transform") \o Is(f.tm, Pr!Printed(n, Pr!Minified), "transform, minified")
       \o Is(f.tp, r.text.pretty, "transform, as the library prints") \o Is(f.tm, r.text.min, "transform, minified, as the library prints")
       \o Is(f.dp, r.debug.p, "tree dump") \o Is(f.dm, r.debug.c, "compact tree dump")
       \o Is(f.ep, r.estree.p, "ESTree dump") \o Is(f.em, r.estree.c, "compact ESTree dump")
  ELSE LET e == Reports(r.S, r.parse.errs) IN
       Is(f.tp, e, "errors of transform") \o Is(f.tm, e, "errors of transform, minified")
       \o Is(f.dp, e, "errors of tree dump") \o Is(f.dm, e, "errors of compact tree dump")
       \o Is(f.ep, e, "errors of ESTree dump") \o Is(f.em, e, "errors of compact ESTree dump")

(***************************************************************************)
(* The Node.js binding: r.calls on the texts r.Ss gave r.answers           *)
(***************************************************************************)
Exported == <<"ast", "parse", "transform">>
JudgeBinding(r) ==
  LET Texts == DOMAIN r.Ss
      Ok(t) == r.parses[t].ok
      \* what each view of each text is
      readable == [t \in Texts |-> IF Ok(t) THEN Pr!Printed(r.parses[t].n, Pr!Readable) ELSE ""]
      minified == [t \in Texts |-> IF Ok(t) THEN Pr!Printed(r.parses[t].n, Pr!Minified) ELSE ""]
      errors == [t \in Texts |-> IF Ok(t) THEN "" ELSE LET es == r.parses[t].errs IN
                   JoinWith([i \in DOMAIN es |-> Re!Report(r.Ss[t], es[i].s, es[i].e)], 1, "\n")]
      View(t, v) == CASE v = "readable" -> readable[t] [] v = "minified" -> minified[t]
                      [] v = "tree" -> r.debugs[t].c
                      [] v = "compact estree" -> r.estrees[t].c [] v = "readable estree" -> r.estrees[t].p
      Wrong(i) ==
        LET a == r.answers[i]
            b == Bi!Result(r.calls[i][1], r.calls[i][2])
        IN CASE b.is = "missing" -> a # [how |-> "TypeError", text |-> Bi!Missing]
             [] b.is = "refused" -> a.how # "TypeError"
             [] b.is = "view" -> a # (IF Ok(b.text) THEN [how |-> "string", text |-> View(b.text, b.view)]
                                     ELSE [how |-> "TypeError", text |-> errors[b.text]])
      off == {i \in DOMAIN r.calls : Wrong(i)}
  IN Unless(r.exports = Exported, "exported: " \o ToString(r.exports))
     \o Unless(Len(r.answers) = Len(r.calls), "calls without an answer")
     \o (IF off = {} THEN Fine
          ELSE LET i == CHOOSE i \in off : \A j \in off : i <= j IN
               <<ToString(r.calls[i]) \o " gave " \o ToString(r.answers[i])>>)

(***************************************************************************)
(* Outcomes: r.outcomes is a sequence of [view, out]                       *)
(***************************************************************************)
NeedModule == {"print", "text", "walk", "scopes", "transform", "estree", "debug", "module"}
Allowed(r, o) ==
  IF o.view \in NeedModule THEN o.out = (IF r.accepted THEN "value" ELSE "rejected") ELSE o.out = "value"
JudgeOutcomes(r) ==
  LET at == {i \in DOMAIN r.outcomes : ~Allowed(r, r.outcomes[i])} IN
  (IF at = {} THEN Fine ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j IN <<ToString(r.outcomes[i])>>)
  \o Unless(r.accepted \/ r.nerrs > 0, "rejected without an error")
  \o Unless(r.inside, "an error reaches outside the text")

(***************************************************************************)
JudgeOp(r, op) ==
  CASE op = "lex" -> JudgeLex(r)
    [] op = "structure" -> JudgeStructure(r)
    [] op = "positions" -> JudgePositions(r)
    [] op = "shifted" -> JudgeShifted(r)
    [] op = "errors" -> JudgeErrors(r)
    [] op = "layouts" -> JudgeLayouts(r)
    [] op = "roundtrip" -> JudgeRoundTrip(r)
    [] op = "text" -> JudgeText(r)
    [] op = "texts" -> JudgeTexts(r)
    [] op = "walk" -> JudgeWalk(r)
    [] op = "scopes" -> JudgeScopes(r)
    [] op = "transform" -> JudgeTransform(r)
    [] op = "estree" -> JudgeEstree(r)
    [] op = "report" -> JudgeReport(r)
    [] op = "facade" -> JudgeFacade(r)
    [] op = "binding" -> JudgeBinding(r)
    [] op = "outcomes" -> JudgeOutcomes(r)

\* a record may be checked in several ways
(* Trees too deep for nested JSON are recorded as their nodes, children first, *)
(* each with the number of its children.                                       *)
Push(st, x) ==
  LET m == Len(st) - x.n IN Append(SubSeq(st, 1, m), La!N(x.k, x.t, x.s, x.e, SubSeq(st, m + 1, Len(st))))
Nested(n) == IF n.k # "Flat" THEN n ELSE FoldLeft(Push, <<>>, n.nodes)[1]

NestedParse(p) == IF p.ok THEN [p EXCEPT !.n = Nested(@)] ELSE p
Whole(r) ==
  LET D == DOMAIN r
      r1 == IF "parse" \in D THEN [r EXCEPT !.parse = NestedParse(@)] ELSE r
      r2 == IF "parses" \in D THEN [r1 EXCEPT !.parses = [i \in DOMAIN @ |-> NestedParse(@[i])]] ELSE r1
      r3 == IF "print" \in D THEN [r2 EXCEPT !.print.pretty.re = NestedParse(@), !.print.min.re = NestedParse(@)] ELSE r2
  IN IF "transform" \in D THEN [r3 EXCEPT !.transform.n = Nested(@)] ELSE r3

RECURSIVE JudgeAll(_, _)
JudgeAll(r, i) ==
  IF i > Len(r.ops) THEN Fine
  ELSE LET b == JudgeOp(r, r.ops[i]) IN
       [j \in DOMAIN b |-> r.ops[i] \o ": " \o b[j]] \o JudgeAll(r, i + 1)
Judge(r) == JudgeAll(Whole(r), 1)

Init == l = 1 /\ bad = 0
Step ==
  /\ l <= Len(R)
  /\ LET b == Judge(R[l]) IN
     /\ IF b = <<>> THEN TRUE ELSE PrintT(<<"BAD", ToJson([id |-> R[l].id, why |-> b])>>)
     /\ bad' = bad + (IF b = <<>> THEN 0 ELSE 1)
  /\ l' = l + 1
Done == l > Len(R) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars

\* every record was consumed
AllChecked == TLCGet("stats").diameter = Len(R) + 1
=============================================================================
