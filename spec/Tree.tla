-------------------------------- MODULE Tree --------------------------------
(* Syntax trees: a node is a record [k, t, s, e, c] of a kind, a text (the     *)
(* operator, name or raw literal), a byte range and a sequence of children.    *)
(* An absent part is None, a list of parts that needs a place of its own is    *)
(* a node of kind List.                                                        *)
EXTENDS Integers, Sequences

N(k, t, s, e, c) == [k |-> k, t |-> t, s |-> s, e |-> e, c |-> c]

None    == N("None", "", 0, 0, <<>>)
List(c) == N("List", "", 0, 0, c)

\* trees up to positions
RECURSIVE Strip(_)
Strip(n) == [k |-> n.k, t |-> n.t, s |-> 0, e |-> 0, c |-> [i \in DOMAIN n.c |-> Strip(n.c[i])]]
StripAll(ns) == [i \in DOMAIN ns |-> Strip(ns[i])]

\* positions moved by d bytes; pseudo nodes have none
RECURSIVE Shift(_, _)
Shift(n, d) ==
  IF n.k \in {"None"} THEN n
  ELSE [k |-> n.k, t |-> n.t,
        s |-> IF n.k = "List" THEN 0 ELSE n.s + d, e |-> IF n.k = "List" THEN 0 ELSE n.e + d,
        c |-> [i \in DOMAIN n.c |-> Shift(n.c[i], d)]]

\* all nodes of a tree in source order
RECURSIVE Nodes(_), NodesOf(_, _)
NodesOf(c, i) == IF i > Len(c) THEN <<>> ELSE Nodes(c[i]) \o NodesOf(c, i + 1)
Nodes(n) == <<n>> \o NodesOf(n.c, 1)

\* the number of nodes of a tree
RECURSIVE Size(_), SizeOf(_, _)
SizeOf(c, i) == IF i > Len(c) THEN 0 ELSE Size(c[i]) + SizeOf(c, i + 1)
Size(n) == 1 + SizeOf(n.c, 1)

RECURSIVE Contains(_, _)
Contains(n, K) == n.k \in K \/ \E i \in DOMAIN n.c : Contains(n.c[i], K)
=============================================================================
