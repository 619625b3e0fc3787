----------------------------- MODULE Histories -----------------------------
(* Behaviours of module System as histories, to be replayed: all of a length,  *)
(* or random ones of a greater length.                                         *)
EXTENDS System, FiniteSets, TLC, Json

CONSTANTS Depth,     \* the length of a history
          FirstOps,  \* what a history may start with
          Accepted,  \* the accepted sources
          Focused    \* whether each step has only one source to choose: with this, random
                     \* histories read more often than they parse

VARIABLES h, done
hvars == <<vars, h, done>>

HInit == Init /\ programs = Accepted /\ h = <<>> /\ done = FALSE
Extend ==
  /\ Len(h) < Depth
  /\ Next
  /\ h' = Append(h, <<last'.th, last'.op, last'.m, last'.src>>)
  /\ h = <<>> => last'.op \in FirstOps
  /\ Focused => last'.src \in {0, 1 + (Len(h) % Cardinality(Sources))}
  /\ UNCHANGED done
Complete == Len(h) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, h>>
HSpec == HInit /\ [][Extend \/ Complete]_hvars

\* always true: prints the complete histories
Printed == IF done THEN PrintT(<<"H", ToJson(h)>>) ELSE TRUE
=============================================================================
