------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Programs that call the binding: a sequence of calls whose arguments are *)
(* put together one by one.                                                *)
(***************************************************************************)
EXTENDS Binding, TLC, Json
CONSTANTS Calls,     \* how many calls a program makes
          Most,      \* the most arguments of a call
          Offered    \* the arguments there are
VARIABLES f, args, done
vars == <<f, args, done>>

Init == f = "" /\ args = <<>> /\ done = <<>>
Choose == f = "" /\ Len(done) < Calls /\ f' \in Functions /\ UNCHANGED <<args, done>>
Argue == f # "" /\ Len(args) < Most /\ \E v \in Offered : args' = Append(args, v) /\ UNCHANGED <<f, done>>
Call == f # "" /\ done' = Append(done, <<f, args>>) /\ f' = "" /\ args' = <<>>
Spec == Init /\ [][Choose \/ Argue \/ Call]_vars /\ WF_vars(Choose \/ Call)

(* Of the specification itself: every call has one result, which later     *)
(* arguments do not change and which says the same of both texts.          *)
Swap(a) == CASE a = "src1" -> "src2" [] a = "src2" -> "src1" [] OTHER -> a
Other(r) == IF r.is = "view" THEN [r EXCEPT !.text = 3 - @] ELSE r
Relations ==
  f # "" =>
    /\ Result(f, args).is \in {"missing", "refused", "view"}
    /\ Result(f, [i \in DOMAIN args |-> Swap(args[i])]) = Other(Result(f, args))
    /\ \A n \in Needs(f)..Len(args) : Result(f, SubSeq(args, 1, n)) = Result(f, args)
    /\ (Result(f, args).is = "view") => \A g \in Functions : Needs(g) = Needs(f) => Result(g, args).is = "view"
    \* a call with all its arguments in place is never refused, one with fewer always
    /\ Len(args) < Needs(f) => Result(f, args).is # "view"
Ends == <>(Len(done) = Calls)
Emit == (Len(done) = Calls /\ f = "") => PrintT(<<"C", ToJson(done)>>)
=============================================================================
