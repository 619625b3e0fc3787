------------------------------- MODULE Replay -------------------------------
(* Recorded histories, checked one operation per step: each has to be an       *)
(* operation of module System, and its answer the one that is already known    *)
(* for its key, if there is one.  Known at first is what processes answered    *)
(* that worked on a single source, each time on a module of its own.           *)
(*                                                                            *)
(* A record has the steps of all threads.  Threads do not share modules, so    *)
(* that any order of their steps that keeps the order of each is a history of  *)
(* the record; here the steps of one thread follow those of another.           *)
EXTENDS System, TLC, Json

CONSTANT File
R == ndJsonDeserialize(File)

VARIABLES r,      \* the record
          i,      \* its step
          known   \* answers by keys
rvars == <<vars, r, i, known>>

\* the keys come with a record in the order of their answers
KeyOf(k) == Key(k[1], k[2], k[3] = 1)
Given(n) == [k \in {KeyOf(R[n].keys[j]) : j \in DOMAIN R[n].keys} |->
             LET j == CHOOSE j \in DOMAIN R[n].keys : KeyOf(R[n].keys[j]) = k IN R[n].given[j]]
Start(n) ==
  IF n > Len(R) THEN programs' = {} /\ mods' = <<>> /\ known' = <<>>
  ELSE /\ programs' = {R[n].programs[j] : j \in DOMAIN R[n].programs}
       /\ mods' = [th \in Threads |-> [m \in Handles |-> Absent]]
       /\ known' = Given(n)

RInit ==
  /\ r = 0 /\ i = 1
  /\ programs = {} /\ mods = <<>> /\ known = <<>>
  /\ last = Event(0, "", 0, 0, <<>>)

Begin ==
  /\ IF r = 0 THEN TRUE ELSE IF r > Len(R) THEN FALSE ELSE i > Len(R[r].steps)
  /\ r' = r + 1 /\ i' = 1
  /\ Start(r + 1)
  /\ UNCHANGED last

Action(e) ==
  LET th == e[1]
      op == e[2]
      m == e[3]
      s == e[4]
  IN CASE op = "parse" -> Parse(th, m, s)
       [] op = "drop" -> Drop(th, m)
       [] op \in Queries -> Query(th, op, m)
       [] op = "transform" -> Transform(th, m)
       [] op \in DOMAIN Facade -> Embedded(th, op, s)

Bad(why) == PrintT(<<"BAD", ToJson([id |-> R[r].id, why |-> <<why>>])>>)

Follow ==
  /\ IF r = 0 \/ r > Len(R) THEN FALSE ELSE i <= Len(R[r].steps)
  /\ LET e == R[r].steps[i]
         a == R[r].answers[i]
     IN /\ Action(e)
        /\ LET k == last'.key
               what == "operation " \o ToString(i) \o " (thread " \o ToString(e[1]) \o ", " \o e[2] \o ", handle " \o ToString(e[3])
                       \o ", source " \o ToString(e[4]) \o ")"
           IN IF k \notin DOMAIN known
              THEN known' = known @@ (k :> a) /\ i' = i + 1
              ELSE /\ known' = known
                   /\ IF known[k] = a THEN i' = i + 1
                      ELSE Bad(what \o " answers " \o a \o " and not, as before, " \o known[k]) /\ i' = Len(R[r].steps) + 1
  /\ UNCHANGED r

Finished == r = Len(R) + 1 /\ UNCHANGED rvars

\* TLC looks for deadlocks: a step that is no operation of System cannot be followed
RNext == Begin \/ Follow \/ Finished
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
