------------------------------- MODULE Arrows -------------------------------
(* The transformation for the older language level: every arrow function       *)
(* becomes an anonymous function; an expression body becomes a block that      *)
(* returns it.                                                                 *)
EXTENDS Tree

RECURSIVE Transformed(_)
Transformed(n) ==
  LET c == [i \in DOMAIN n.c |-> Transformed(n.c[i])] IN
  CASE n.k = "ArrowB" -> N("FunctionExpr", "", n.s, n.e, <<None, c[1], c[2]>>)
    [] n.k = "ArrowE" ->
         LET s == n.c[2].s
             e == n.c[2].e
         IN N("FunctionExpr", "", n.s, n.e,
              <<None, c[1], N("Block", "", s, e, <<N("Return", "", s, e, <<c[2]>>)>>)>>)
    [] OTHER -> [n EXCEPT !.c = c]

RECURSIVE Count(_, _), CountOf(_, _, _)
CountOf(c, i, K) == IF i > Len(c) THEN 0 ELSE Count(c[i], K) + CountOf(c, i + 1, K)
Count(n, K) == (IF n.k \in K THEN 1 ELSE 0) + CountOf(n.c, 1, K)

ArrowKinds == {"ArrowE", "ArrowB"}
=============================================================================
