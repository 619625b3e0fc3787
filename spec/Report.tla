------------------------------- MODULE Report -------------------------------
(* The report that is shown for a token of a source.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

B(S, i) == IF i < S.n THEN S.b[i + 1] ELSE 0
Slice(S, i, j) == SubSeq(S.s, i + 1, j)

\* how many characters start in the range from i up to j
Chars(S, i, j) == Cardinality({k \in (i + 1)..(IF j < S.n THEN j ELSE S.n) : S.b[k] \notin 128..191}) + (IF j > S.n THEN j - S.n ELSE 0)

\* where lines other than the first start: behind every line break.  A line break at the end of
\* the source starts another, empty, line.
Starts(S) == SelectSeq([i \in 1..S.n |-> i], LAMBDA i : S.b[i] = 10)

\* the lines as ranges of bytes, without what ends them
Lines(S) ==
  LET st == <<0>> \o Starts(S)
      EndOf(k) == IF k = Len(st) THEN S.n
                  ELSE LET b == st[k + 1] - 1 IN IF b > st[k] /\ B(S, b - 1) = 13 THEN b - 1 ELSE b
  IN [k \in DOMAIN st |-> [s |-> st[k], e |-> EndOf(k)]]

\* the number of the line that position i is on, counted from 1
LineOf(lines, i) == CHOOSE l \in DOMAIN lines : lines[l].s <= i /\ (l = Len(lines) \/ i < lines[l + 1].s)

RECURSIVE Repeat(_, _)
Repeat(ch, n) == IF n <= 0 THEN "" ELSE ch \o Repeat(ch, n - 1)
RightAlign(t, w) == Repeat(" ", w - Len(t)) \o t

Excerpt(S, line, n, width) == RightAlign(ToString(n), width) \o " | " \o Slice(S, line.s, line.e) \o "\n"

RECURSIVE Excerpts(_, _, _, _, _, _)
Excerpts(S, lines, n, last, here, under) ==
  IF n > last THEN ""
  ELSE (IF n = here THEN "> " \o Excerpt(S, lines[n], n, Len(ToString(here + 2))) \o under
        ELSE Excerpt(S, lines[n], n, Len(ToString(here + 2)) + 2))
       \o Excerpts(S, lines, n + 1, last, here, under)

\* the report for the token from s up to e
Report(S, s, e) ==
  LET lines == Lines(S)
      l == LineOf(lines, s)
      col == Chars(S, lines[l].s, s)
      width == Len(ToString(l + 2))
      under == Repeat(" ", width) \o "   | " \o Repeat(" ", col) \o Repeat("^", Chars(S, s, e)) \o "\n"
      from == IF l > 2 THEN l - 2 ELSE 1
      to == IF l + 2 < Len(lines) THEN l + 2 ELSE Len(lines)
  IN "Unexpected token at " \o ToString(l) \o ":" \o ToString(col + 1) \o "\n\n"
     \o Excerpts(S, lines, from, to, l, under)
=============================================================================
