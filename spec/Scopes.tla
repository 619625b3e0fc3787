------------------------------- MODULE Scopes -------------------------------
(* Scope analysis: the scopes that follow from the announcements of a walk.    *)
(* The state is the sequence of open scopes, the innermost one last; a scope   *)
(* is a record [kind, this, sup, used, decl, ch] with its names in the order   *)
(* in which they first occur.                                                  *)
EXTENDS Walk

NewScope(kind) ==
  [kind |-> kind, this |-> FALSE, sup |-> FALSE, used |-> <<>>, decl |-> <<>>, ch |-> <<>>]

Has(names, t) == \E i \in DOMAIN names : names[i] = t
Add(names, t) == IF Has(names, t) THEN names ELSE Append(names, t)

Initial == <<NewScope("function")>>

\* the open scopes after an announcement
After(open, ev) ==
  LET d == Len(open) IN
  CASE ev.v = "enter" -> Append(open, NewScope(ev.t))
    [] ev.v = "leave" ->
         [SubSeq(open, 1, d - 1) EXCEPT ![d - 1].ch = Append(@, open[d])]
    [] ev.v = "use"  -> [open EXCEPT ![d].used = Add(@, ev.t)]
    [] ev.v = "decl" -> [open EXCEPT ![d].decl = Add(@, ev.t)]
    [] ev.v = "This" -> [open EXCEPT ![d].this = TRUE]
    [] OTHER -> open

RECURSIVE Fold(_, _, _)
Fold(open, evs, i) == IF i > Len(evs) THEN open ELSE Fold(After(open, evs[i]), evs, i + 1)

Analysis(n) == Fold(Initial, Announcements(n), 1)[1]

(***************************************************************************)
(* What the analysis means, said on the tree instead of on a walk          *)
(***************************************************************************)
RECURSIVE UsedIn(_), CountScopes(_), CountAll(_, _)
CountScopes(sc) == 1 + CountAll(sc.ch, 1)
CountAll(ch, i) == IF i > Len(ch) THEN 0 ELSE CountScopes(ch[i]) + CountAll(ch, i + 1)
UsedIn(sc) == {sc.used[i] : i \in DOMAIN sc.used} \cup UNION {UsedIn(sc.ch[i]) : i \in DOMAIN sc.ch}
=============================================================================
