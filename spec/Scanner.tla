------------------------------ MODULE Scanner ------------------------------
(* The lexer as a state machine over a text that is not known in advance: one symbol *)
(* after the other is chosen, and the machine, which sees one symbol ahead and keeps  *)
(* nothing but its mode and where the current token started, emits tokens.  Module    *)
(* Lex says the same by looking at a whole text.  What a slash or a closing brace     *)
(* begins is for the reader of the tokens to say: both choices are explored.          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Longest        \* how many symbols a text has at most

\* the symbols: their bytes, and these as a string with one character each
Alphabet == JsonDeserialize("alphabet.json")

La == INSTANCE Lex

VARIABLES
  bytes, chars,  \* the text so far
  ahead,         \* what was chosen to follow: a symbol, nothing yet, or the end
  r,             \* the mode, with start s and flag a of the token, and what else it needs
  toks,          \* the tokens so far
  d,             \* what was decided about slashes and braces
  count,         \* the number of symbols of the text
  phase          \* "read", "ask" when a slash or brace waits for a decision, "done"
vars == <<bytes, chars, ahead, r, toks, d, count, phase>>

None == [b |-> <<>>, s |-> "none"]
End  == [b |-> <<>>, s |-> "end"]

Start(i, a) == [m |-> "start", s |-> i, a |-> a, p |-> 0, c |-> 0, k |-> ""]

(***************************************************************************)
(* One move: what the machine does in mode r at position i when the next    *)
(* symbol starts with byte c (-1 at the end) and starts a name or not.  It  *)
(* takes the symbol or leaves it, emits a token or not, and has a new mode. *)
(***************************************************************************)
Take(q)   == [take |-> TRUE, emit |-> <<>>, r |-> q]
Leave(q)  == [take |-> FALSE, emit |-> <<>>, r |-> q]
To(q, m)  == Take([q EXCEPT !.m = m])
Stay(q)   == Take(q)
\* the token is complete with the symbol
Last(q, k) == Take([q EXCEPT !.m = "full", !.k = k])

Tok(q, k, e) == La!Token(k, q.s, e, q.a)
Out(t, i)    == [take |-> FALSE, emit |-> <<t>>, r |-> Start(i, "N")]

Break(q, c) == IF c = 10 THEN [q EXCEPT !.a = "I"] ELSE q

Strings == La!Punct[1] \cup La!Punct[2] \cup La!Punct[3] \cup La!Punct[4]
Flag(w, a) == IF w = ";" THEN "X" ELSE IF w \in {")", "}"} THEN "I" ELSE a

PunctMove(q, i, c, w, x) ==
  IF c >= 0 /\ (w \o x) \in Strings \ {"..."} THEN To(q, "punct")
  ELSE Out([Tok(q, w, i) EXCEPT !.a = Flag(w, q.a)], i)

TemplateMove(q, i, c) ==
  CASE c = -1 -> Out(Tok(q, "EEOF", i), i)
    [] c = 96 -> Take([q EXCEPT !.m = "full", !.k = "TPLC", !.c = i])
    [] c = 36 -> To(q, "dollar")
    [] c = 92 -> To(q, "template escape")
    [] OTHER  -> To(q, "template")

DotMove(q, i, c, starts) ==
  CASE c = -1 -> Out(Tok(q, "EEOF", i), i)
    [] c \in 0..32 -> To(q, "dot blank")
    [] c = 47 -> To(q, "dot slash")
    [] starts -> Take([q EXCEPT !.m = "property", !.p = i])
    [] OTHER  -> Out(Tok(q, "ERR", i), i)

\* inside a comment; m, star: the modes inside and after an asterisk
CommentMove(q, i, c, m, star, q2) ==
  IF c = -1 THEN Out(Tok(q, "EEOF", i), i)
  ELSE Take([Break(q, c) EXCEPT !.m = IF c = 42 THEN star ELSE m, !.a = IF q2 /\ c = 10 THEN "I" ELSE q.a])

StartMove(q0, i, c, starts) ==
  LET q == [q0 EXCEPT !.s = i] IN
  CASE c = -1 -> [take |-> FALSE, emit |-> <<La!Token("EOF", i, i, "I")>>, r |-> [q EXCEPT !.m = "stop"]]
    [] c \in 0..32 -> Take(Break(q, c))
    [] starts -> To(q, "name")
    [] c >= 128 -> Last(q, "ERR")
    [] c = 48 -> To(q, "zero")
    [] c \in 49..57 -> To(q, "integer")
    [] c \in {34, 39} -> Take([q EXCEPT !.m = "string", !.c = c])
    [] c = 96 -> Take([q EXCEPT !.m = "template", !.p = i + 1])
    [] c = 46 -> To(q, "dot")
    [] c = 47 -> To(q, "slash")
    [] OTHER -> To(q, "punct")

Digit(c) == c \in 48..57
Hex(c)   == Digit(c) \/ c \in 65..70 \/ c \in 97..102
Exp(c)   == c \in {69, 101}
Label(c) == c >= 0 /\ La!InLabel(c)

\* w: the text of the current token, x: the string of the symbol
Move(q, i, c, starts, w, x) ==
  LET Number == Out(Tok(q, "NUM", i), i)
      Broken == Out(Tok(q, "ERR", i), i)
      Over   == Out(Tok(q, "EEOF", i), i)
  IN
  CASE q.m = "start"     -> StartMove(q, i, c, starts)
    [] q.m = "full"      -> Out([Tok(q, q.k, i) EXCEPT !.q = IF q.k \in {"TPLC", "TPLO"} THEN <<q.p, q.c>> ELSE <<0, 0>>], i)
    [] q.m = "name"      -> IF Label(c) THEN Stay(q) ELSE Out(Tok(q, IF w \in La!Keywords THEN w ELSE "ID", i), i)
    \* numbers
    [] q.m = "zero" /\ c \in {66, 98}  -> To(q, "binary")
    [] q.m = "zero" /\ c \in {79, 111} -> To(q, "octal")
    [] q.m = "zero" /\ c \in {88, 120} -> To(q, "hex")
    [] q.m \in {"zero", "integer"} ->
         IF Digit(c) THEN To(q, "integer") ELSE IF c = 46 THEN To(q, "fraction") ELSE IF Exp(c) THEN To(q, "exponent") ELSE Number
    [] q.m = "fraction"  -> IF Digit(c) THEN Stay(q) ELSE IF Exp(c) THEN To(q, "exponent") ELSE Number
    [] q.m = "exponent"  -> IF Digit(c) THEN To(q, "power") ELSE IF c \in {43, 45} THEN To(q, "sign") ELSE Broken
    [] q.m = "sign"      -> IF Digit(c) THEN To(q, "power") ELSE Broken
    [] q.m = "power"     -> IF Digit(c) THEN Stay(q) ELSE Number
    [] q.m = "binary"    -> IF c \in {48, 49} THEN Stay(q) ELSE Out(Tok(q, "BIN", i), i)
    [] q.m = "octal"     -> IF c \in 48..55 THEN Stay(q) ELSE Number
    [] q.m = "hex"       -> IF Hex(c) THEN Stay(q) ELSE Number
    \* strings and templates
    [] q.m = "string"    -> IF c = -1 THEN Over ELSE IF c = q.c THEN Last(q, "STR") ELSE IF c = 92 THEN To(q, "string escape") ELSE Stay(q)
    [] q.m = "string escape"   -> IF c = -1 THEN Over ELSE To(q, "string")
    [] q.m = "template"        -> TemplateMove(q, i, c)
    [] q.m = "template escape" -> IF c = -1 THEN Over ELSE To(q, "template")
    [] q.m = "dollar"          -> IF c = 123 THEN Take([q EXCEPT !.m = "full", !.k = "TPLO", !.c = i - 1]) ELSE TemplateMove(q, i, c)
    \* slashes and comments
    [] q.m = "slash"     -> IF c = 47 THEN To(q, "line") ELSE IF c = 42 THEN To(q, "comment") ELSE PunctMove(q, i, c, w, x)
    [] q.m = "line"      -> IF c \in {-1, 10} THEN Leave([q EXCEPT !.m = "start"]) ELSE Stay(q)
    [] q.m = "comment"   -> CommentMove(q, i, c, "comment", "star", TRUE)
    [] q.m = "star"      -> IF c = 47 THEN To(q, "start") ELSE CommentMove(q, i, c, "comment", "star", TRUE)
    [] q.m = "punct"     -> IF w \notin Strings THEN Broken ELSE PunctMove(q, i, c, w, x)
    \* dots
    [] q.m = "dot"       -> IF Digit(c) THEN To(q, "fraction") ELSE IF c = 46 THEN To(q, "dots") ELSE DotMove(q, i, c, starts)
    [] q.m = "dots"      -> IF c = 46 THEN Last(q, "...") ELSE Broken
    [] q.m = "dot blank" -> DotMove(q, i, c, starts)
    [] q.m = "dot slash" -> IF c = 47 THEN To(q, "dot line") ELSE IF c = 42 THEN To(q, "dot comment")
                            ELSE [take |-> FALSE, emit |-> <<Tok(q, "ERR", i - 1)>>, r |-> [Start(i - 1, "N") EXCEPT !.m = "punct"]]
    [] q.m = "dot line"  -> IF c \in {-1, 10} THEN Leave([q EXCEPT !.m = "dot blank"]) ELSE Stay(q)
    [] q.m = "dot comment" -> CommentMove(q, i, c, "dot comment", "dot star", FALSE)
    [] q.m = "dot star"  -> IF c = 47 THEN To(q, "dot blank") ELSE CommentMove(q, i, c, "dot comment", "dot star", FALSE)
    [] q.m = "property"  -> IF Label(c) THEN Stay(q) ELSE Out([Tok(q, "ACC", i) EXCEPT !.p = q.p], i)
    \* regular expressions; c: whether inside a class
    [] q.m = "regex"     ->
         (CASE c = -1 -> Over
            [] c = 10 -> Last(q, "ERR")
            [] c = 92 -> To(q, "regex escape")
            [] c = 91 -> Take([q EXCEPT !.c = 1])
            [] c = 93 -> Take([q EXCEPT !.c = 0])
            [] c = 47 /\ q.c = 0 -> To(q, "flags")
            [] OTHER -> Stay(q))
    [] q.m = "regex escape" -> IF c = -1 THEN Over ELSE To(q, "regex")
    [] q.m = "flags"     -> IF c \in {103, 105, 109, 117, 121} THEN Stay(q) ELSE Out(Tok(q, "REGEX", i), i)

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
Init ==
  /\ bytes = <<>> /\ chars = "" /\ ahead = None /\ r = Start(0, "N")
  /\ toks = <<>> /\ d = <<>> /\ count = 0 /\ phase = "read"

Choose ==
  /\ phase = "read" /\ ahead = None
  /\ \/ ahead' = End /\ UNCHANGED count
     \/ count < Longest /\ count' = count + 1 /\ \E j \in DOMAIN Alphabet : ahead' = Alphabet[j]
  /\ UNCHANGED <<bytes, chars, r, toks, d, phase>>

Source == [b |-> bytes, s |-> chars, n |-> Len(bytes)]
\* the text with the symbol that comes next
Longer == LET b == bytes \o ahead.b IN [b |-> b, s |-> "", n |-> Len(b)]

Asked == {"/", "/=", "}"}

Advance ==
  /\ phase = "read" /\ ahead # None
  /\ LET i == Len(bytes)
         mv == Move(r, i, IF ahead = End THEN -1 ELSE ahead.b[1], ahead # End /\ La!StartsName(Longer, i), La!Slice(Source, r.s, i), ahead.s)
     IN /\ r' = mv.r
        /\ toks' = toks \o mv.emit
        /\ IF mv.take THEN bytes' = bytes \o ahead.b /\ chars' = chars \o ahead.s /\ ahead' = None
           ELSE UNCHANGED <<bytes, chars, ahead>>
        /\ phase' = IF mv.emit = <<>> THEN "read" ELSE IF mv.emit[1].k \in Asked THEN "ask" ELSE IF mv.emit[1].k = "EOF" THEN "done" ELSE "read"
  /\ UNCHANGED <<d, count>>

\* the reader of the tokens decides what a slash or a closing brace is
Decide ==
  /\ phase = "ask" /\ phase' = "read"
  /\ LET t == toks[Len(toks)] IN
     \/ d' = Append(d, FALSE) /\ UNCHANGED <<r, toks>>
     \/ /\ d' = Append(d, TRUE)
        /\ toks' = SubSeq(toks, 1, Len(toks) - 1)
        /\ r' = [Start(t.s, t.a) EXCEPT !.m = IF t.k = "}" THEN "template" ELSE "regex", !.p = t.e]
  /\ UNCHANGED <<bytes, chars, ahead, count>>

Step == Choose \/ Advance \/ Decide
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

(***************************************************************************)
(* What holds                                                              *)
(***************************************************************************)
\* tokens are in order, do not overlap and are not empty except at the end
Ordered ==
  /\ \A j \in 1..(Len(toks) - 1) : toks[j].e <= toks[j + 1].s
  /\ \A j \in DOMAIN toks : toks[j].s < toks[j].e \/ toks[j].k = "EOF"
  /\ toks # <<>> => toks[Len(toks)].e <= Len(bytes)

\* there is always a next step until the text is read
Progress == phase # "done" => ENABLED Step

\* every text is read in the end
Terminates == <>(phase = "done")

\* what was emitted stays, but for the token that waits for a decision
Final == [][ \/ \E rest \in {SubSeq(toks', Len(toks) + 1, Len(toks'))} : toks' = toks \o rest
             \/ phase = "ask" /\ toks' = SubSeq(toks, 1, Len(toks) - 1) ]_vars

\* reading symbol by symbol gives the tokens that the lexical grammar gives for the whole text
Agrees == phase = "done" => (toks = La!Tokens(Source, d) \/ ~PrintT(<<"WRONG", chars, d, toks, La!Tokens(Source, d)>>))

\* always true: the texts, to be replayed
Emit == phase = "done" => PrintT(<<"T", ToJson([b |-> bytes, d |-> d])>>)
=============================================================================
