------------------------------- MODULE System -------------------------------
(* The library as its users see it: modules that are parsed, read,            *)
(* transformed and dropped, in several threads that share nothing, and the     *)
(* facade, which keeps no module.                                              *)
(*                                                                            *)
(* Every operation gives an answer.  What the answer may depend on is its key: *)
(* what is asked, about which source, and whether the module has been          *)
(* transformed.  Nothing else - no earlier operation, no other module, no      *)
(* other thread - is part of the key, and two answers with one key are equal.  *)
EXTENDS Integers, Sequences

CONSTANTS Threads, Handles, Sources

VARIABLES programs,   \* the sources that are accepted
          mods,       \* what the handles of each thread hold
          last        \* the operation that was done last: thread, name, handle, source, key
vars == <<programs, mods, last>>

Absent == [src |-> 0, transformed |-> FALSE, there |-> FALSE]
Fresh(s) == [src |-> s, transformed |-> FALSE, there |-> TRUE]

\* operations that read a module
Queries == {"tree", "pretty", "min", "walk", "scopes", "estree", "estreep", "debug", "debugp"}

\* operations of the facade, and which reading of a new module each of them is
Facade == [ftransform |-> "pretty", fminify |-> "min", fdump |-> "debug", fdumpp |-> "debugp",
           festree |-> "estree", festreep |-> "estreep"]

Key(what, s, transformed) == <<what, s, transformed>>
Event(th, op, m, s, key) == [th |-> th, op |-> op, m |-> m, src |-> s, key |-> key]

TypeOK ==
  /\ programs \subseteq Sources
  /\ \A th \in Threads : \A m \in Handles :
       /\ mods[th][m].there => mods[th][m].src \in programs
       /\ mods[th][m].transformed => mods[th][m].there

Init ==
  /\ programs \in SUBSET Sources
  /\ mods = [th \in Threads |-> [m \in Handles |-> Absent]]
  /\ last = Event(0, "", 0, 0, <<>>)

\* the answer to parsing is the tree, or the errors; the handle holds nothing after errors
Parse(th, m, s) ==
  /\ mods' = [mods EXCEPT ![th][m] = IF s \in programs THEN Fresh(s) ELSE Absent]
  /\ last' = Event(th, "parse", m, s, Key(IF s \in programs THEN "tree" ELSE "errors", s, FALSE))
  /\ UNCHANGED programs

Drop(th, m) ==
  /\ mods[th][m].there
  /\ mods' = [mods EXCEPT ![th][m] = Absent]
  /\ last' = Event(th, "drop", m, 0, Key("drop", 0, FALSE))
  /\ UNCHANGED programs

Query(th, op, m) ==
  /\ mods[th][m].there
  /\ last' = Event(th, op, m, 0, Key(op, mods[th][m].src, mods[th][m].transformed))
  /\ UNCHANGED <<programs, mods>>

\* the answer is the tree after it; a second transformation finds nothing to do
Transform(th, m) ==
  /\ mods[th][m].there
  /\ mods' = [mods EXCEPT ![th][m].transformed = TRUE]
  /\ last' = Event(th, "transform", m, 0, Key("tree", mods[th][m].src, TRUE))
  /\ UNCHANGED programs

\* all operations of the facade show rejected sources the same report
Embedded(th, op, s) ==
  /\ last' = Event(th, op, 0, s, Key(IF s \in programs THEN Facade[op] ELSE "report", s, FALSE))
  /\ UNCHANGED <<programs, mods>>

Next ==
  \E th \in Threads :
    \/ \E m \in Handles :
         \/ \E s \in Sources : Parse(th, m, s)
         \/ Drop(th, m)
         \/ \E op \in Queries : Query(th, op, m)
         \/ Transform(th, m)
    \/ \E op \in DOMAIN Facade : \E s \in Sources : Embedded(th, op, s)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What follows from it                                                    *)
(***************************************************************************)
\* an operation changes at most the handle it is done on
Isolated ==
  [][\A th \in Threads : \A m \in Handles :
       mods'[th][m] # mods[th][m] => last'.th = th /\ last'.m = m]_vars
\* reading changes nothing
ReadOnly == [][last'.op \notin {"parse", "drop", "transform"} => mods' = mods]_vars
\* keys mention nothing but the source and whether it was transformed
KeysAreLocal ==
  last.op # "" =>
    \/ last.op = "drop"
    \/ last.key[2] = last.src
    \/ last.op \in Queries \cup {"transform"} /\ last.key = Key(last.key[1], mods[last.th][last.m].src, mods[last.th][last.m].transformed)
=============================================================================
