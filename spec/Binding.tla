------------------------------ MODULE Binding ------------------------------
(***************************************************************************)
(* The functions that the Node.js binding gives to JavaScript.  A call     *)
(* names a function and its arguments; an argument is a string (the number *)
(* of one of the texts), a boolean or something else.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Functions == {"transform", "parse", "ast"}
Strings == {"src1", "src2"}
Booleans == {"true", "false"}
Values == Strings \cup Booleans \cup {"number", "undefined", "null"}

Number(a) == IF a = "src1" THEN 1 ELSE 2
\* how many arguments a function looks at
Needs(f) == IF f = "parse" THEN 1 ELSE 2

(* What a call gives: a refusal of its arguments, or the view of a text.   *)
Result(f, args) ==
  IF args = <<>> THEN [is |-> "missing", text |-> 0, view |-> ""]
  ELSE IF args[1] \notin Strings \/ (Needs(f) = 2 /\ (Len(args) < 2 \/ args[2] \notin Booleans))
       THEN [is |-> "refused", text |-> 0, view |-> ""]
  ELSE [is |-> "view", text |-> Number(args[1]),
        view |-> CASE f = "parse" -> "tree"
                   [] f = "transform" -> (IF args[2] = "true" THEN "minified" ELSE "readable")
                   [] f = "ast" -> (IF args[2] = "true" THEN "compact estree" ELSE "readable estree")]

Missing == "First argument must be a string"
=============================================================================
