-------------------------------- MODULE Lex --------------------------------
(* The lexical grammar of the accepted language, as pure operators.           *)
(*                                                                            *)
(* A source S is a record [b, s, n]: its n bytes as integers (UTF-8), and the *)
(* same text as a string with one character per byte, so that every position  *)
(* below is a byte offset.  Past the end every byte reads as 0.               *)
(*                                                                            *)
(* A token is a record [k, s, e, a, p, q]:                                    *)
(*   k  its name: the text of a punctuator or keyword, otherwise one of       *)
(*      EOF STR NUM BIN REGEX ID ACC TPLO TPLC ERR EEOF                       *)
(*   s, e  its byte range (for a template continuation s stays at the brace)  *)
(*   a  what semicolon insertion may do before it: "X" it is a semicolon,     *)
(*      "I" one may be inserted, "N" none may be                              *)
(*   p  where the name of an accessor starts                                  *)
(*   q  the byte range of the template piece                                  *)
EXTENDS Integers, Sequences

B(S, i) == IF i < S.n THEN S.b[i + 1] ELSE 0

Slice(S, i, j) == SubSeq(S.s, i + 1, j)

(***************************************************************************)
(* Characters                                                              *)
(***************************************************************************)
Digit(c)    == c \in 48..57
Letter(c)   == c \in 65..90 \/ c \in 97..122
HexDigit(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102

\* bytes that continue a name: letters, digits, $ _ \ and everything non-ASCII
LabelTable == [c \in 0..255 |-> Letter(c) \/ Digit(c) \/ c \in {36, 92, 95} \/ c >= 128]
InLabel(c) == LabelTable[c]

\* bytes that may start a name, except for non-ASCII ones
StartTable == [c \in 0..127 |-> Letter(c) \/ c \in {36, 92, 95}]

\* the non-ASCII characters of the test alphabet that are letters or digits
AlnumChars == { <<195,169>>,            \* e acute
                <<207,128>>,            \* pi
                <<230,188,162>>,        \* CJK ideograph
                <<240,157,146,179>>,    \* mathematical script letter
                <<217,163>>,            \* arabic-indic digit three
                <<197,191>>,            \* long s
                <<225,130,160>>,        \* georgian capital an
                <<194,170>>,            \* feminine ordinal
                <<194,181>>,            \* micro sign
                <<194,178>>,            \* superscript two
                <<194,189>>,            \* one half
                <<205,133>>,            \* combining iota below, which counts as alphabetic
                <<224,160,128>>,        \* samaritan alef, the first of three bytes
                <<224,185,144>>,        \* thai digit zero
                <<226,133,183>>,        \* small roman numeral eight
                <<226,146,182>>,        \* circled capital a
                <<227,131,188>>,        \* prolonged sound mark
                <<240,144,128,128>>,    \* linear b a, the first of four bytes
                <<240,157,159,142>>,    \* mathematical digit zero
                <<240,160,174,183>> }   \* CJK ideograph of four bytes
\* and the ones that are not
OtherChars == { <<226,152,131>>,        \* snowman
                <<226,130,172>>,        \* euro sign
                <<240,159,152,128>>,    \* emoji
                <<194,160>>,            \* no-break space
                <<226,128,168>>,        \* line separator
                <<194,171>>,            \* left guillemet
                <<239,187,191>>,        \* byte order mark
                <<204,129>>,            \* combining acute
                <<194,128>>,            \* a control character, the first of two bytes
                <<194,161>>,            \* inverted exclamation mark
                <<195,151>>,            \* multiplication sign
                <<195,183>>,            \* division sign
                <<226,128,140>>,        \* zero width non-joiner
                <<226,128,141>>,        \* zero width joiner
                <<226,128,191>>,        \* undertie
                <<226,128,169>>,        \* paragraph separator
                <<227,128,128>>,        \* ideographic space
                <<238,128,128>>,        \* private use
                <<239,191,189>>,        \* replacement character
                <<244,143,191,191>> }   \* the last code point

CharLen(c) == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4

CharAt(S, i) == SubSeq(S.b, i + 1, i + CharLen(B(S, i)))

StartsName(S, i) == LET c == B(S, i) IN IF c < 128 THEN StartTable[c] ELSE CharAt(S, i) \in AlnumChars

(***************************************************************************)
(* Words and punctuators                                                   *)
(***************************************************************************)
Keywords ==
  { "break", "const", "continue", "case", "catch", "class", "do", "delete", "default",
    "debugger", "else", "export", "extends", "enum", "finally", "for", "function", "false",
    "in", "instanceof", "interface", "if", "import", "implements", "let", "new", "null",
    "package", "public", "protected", "private", "return", "super", "switch", "static",
    "typeof", "this", "throw", "try", "true", "undefined", "var", "void", "while", "with",
    "yield" }

Punct == << { ";", ":", ",", "(", ")", "[", "]", "{", "}", "!", "~", "*", "/", "%", "+", "-",
              "<", ">", "&", "^", "|", "?", "=" },
            { "=>", "++", "--", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=",
              "-=", "*=", "/=", "%=", "&=", "^=", "|=" },
            { ">>>", "===", "!==", "**=", "<<=", ">>=", "..." },
            { ">>>=" } >>

\* the length of the longest punctuator at position i, 0 if there is none
PunctLen(S, i) ==
  LET L == { l \in 1..4 : i + l <= S.n /\ Slice(S, i, i + l) \in Punct[l] }
  IN IF L = {} THEN 0 ELSE CHOOSE l \in L : \A m \in L : m <= l

(***************************************************************************)
(* Runs of characters                                                      *)
(***************************************************************************)
(* The end of the run of bytes in table T that starts at i.  It is looked for in  *)
(* steps that double, so that a run of any length takes few levels of recursion. *)
RECURSIVE RunEnd(_, _, _, _)
RunEnd(S, i, T, w) ==
  IF i + w <= S.n /\ \A j \in (i + 1)..(i + w) : T[S.b[j]] THEN RunEnd(S, i + w, T, 2 * w)
  ELSE IF w = 1 THEN i ELSE RunEnd(S, i, T, 1)
Run(S, i, T) == RunEnd(S, i, T, 1)

Bytes(C)  == [c \in 0..255 |-> c \in C]
Except(C) == [c \in 0..255 |-> c \notin C]
DigitTable == Bytes(48..57)
BinTable   == Bytes(48..49)
OctTable   == Bytes(48..55)
HexTable   == [c \in 0..255 |-> HexDigit(c)]
FlagTable  == Bytes({103, 105, 109, 117, 121})

LabelEnd(S, i)  == Run(S, i, LabelTable)
DigitsEnd(S, i) == Run(S, i, DigitTable)
BinEnd(S, i)    == Run(S, i, BinTable)
OctEnd(S, i)    == Run(S, i, OctTable)
HexEnd(S, i)    == Run(S, i, HexTable)
FlagsEnd(S, i)  == Run(S, i, FlagTable)

\* the exponent after the letter e, and the fraction after the point
SciEnd(S, i) == DigitsEnd(S, IF B(S, i) \in {43, 45} THEN i + 1 ELSE i)
FloatEnd(S, i) ==
  LET j == DigitsEnd(S, i) IN IF B(S, j) \in {69, 101} THEN SciEnd(S, j + 1) ELSE j
DecimalEnd(S, i) ==
  LET j == DigitsEnd(S, i) IN
  IF B(S, j) = 46 THEN FloatEnd(S, j + 1)
  ELSE IF B(S, j) \in {69, 101} THEN SciEnd(S, j + 1) ELSE j

(***************************************************************************)
(* Tokens                                                                  *)
(***************************************************************************)
Token(k, s, e, a) == [k |-> k, s |-> s, e |-> e, a |-> a, p |-> 0, q |-> <<0, 0>>]

\* strings: quote c, from position i inside
StringTables == [c \in {34, 39} |-> Except({c, 92})]
RECURSIVE StringFrom(_, _, _, _, _)
StringFrom(S, s, c, i0, a) ==
  LET i == Run(S, i0, StringTables[c])
      d == B(S, i)
  IN
  IF i >= S.n THEN Token("EEOF", s, i, a)
  ELSE IF d = c THEN Token("STR", s, i + 1, a)
  ELSE IF i + 1 >= S.n THEN Token("EEOF", s, i + 1, a)
  ELSE StringFrom(S, s, c, i + 2, a)

\* template pieces: the piece starts at q, i is the current position
TemplateTable == Except({36, 92, 96})
RECURSIVE TemplateScan(_, _, _, _, _)
TemplateScan(S, s, q, i0, a) ==
  LET i == Run(S, i0, TemplateTable)
      d == B(S, i)
  IN
  IF i >= S.n THEN Token("EEOF", s, i, a)
  ELSE IF d = 96 THEN [Token("TPLC", s, i + 1, a) EXCEPT !.q = <<q, i>>]
  ELSE IF d = 36 /\ B(S, i + 1) = 123 THEN [Token("TPLO", s, i + 2, a) EXCEPT !.q = <<q, i>>]
  ELSE IF d = 92 THEN IF i + 1 >= S.n THEN Token("EEOF", s, i + 1, a) ELSE TemplateScan(S, s, q, i + 2, a)
  ELSE TemplateScan(S, s, q, i + 1, a)

HasBreak(S, i, j) == \E k \in (i + 1)..j : S.b[k] = 10

LineTable == Except({10})
LineEnd(S, i) == Run(S, i, LineTable)

\* where the comment whose inside starts at i ends, -1 when it does not
StarTable == Except({42})
RECURSIVE CommentEnd(_, _)
CommentEnd(S, i0) ==
  LET i == Run(S, i0, StarTable) IN
  IF i >= S.n THEN -1 ELSE IF B(S, i + 1) = 47 THEN i + 2 ELSE CommentEnd(S, i + 1)

\* where whitespace and comments that start at i end; inside a comment that does not end, that
\* is the end of the source
BlankTable == Bytes(0..32)
RECURSIVE BlankEnd(_, _)
BlankEnd(S, i0) ==
  LET i == Run(S, i0, BlankTable) IN
  IF B(S, i) = 47 /\ B(S, i + 1) = 47 THEN BlankEnd(S, LineEnd(S, i + 2))
  ELSE IF B(S, i) = 47 /\ B(S, i + 1) = 42
  THEN LET j == CommentEnd(S, i + 2) IN IF j = -1 THEN S.n ELSE BlankEnd(S, j)
  ELSE i

\* a dot that starts neither a number nor a spread: the name of a property follows, after
\* any whitespace and comments
AccessorScan(S, s, i0, a) ==
  LET i == BlankEnd(S, i0) IN
  IF i >= S.n THEN Token("EEOF", s, i, a)
  ELSE IF StartsName(S, i) THEN [Token("ACC", s, LabelEnd(S, i), a) EXCEPT !.p = i]
  ELSE Token("ERR", s, i, a)

\* a numeral that ends before e; one whose exponent has no digits is no token of the language
Numeral(S, i, e, a) ==
  Token(IF B(S, e - 1) \in {43, 45, 69, 101} THEN "ERR" ELSE "NUM", i, e, a)

Word(S, i, a) ==
  LET e == LabelEnd(S, i)
      w == Slice(S, i, e)
  IN Token(IF w \in Keywords THEN w ELSE "ID", i, e, a)

\* the token whose first byte is at i; a says whether a line break came before it
TokenAt(S, i, a) ==
  LET c == B(S, i)
      d == B(S, i + 1)
  IN
  IF i >= S.n THEN Token("EOF", i, i, "I")
  ELSE IF c >= 128 THEN
    IF StartsName(S, i) THEN Token("ID", i, LabelEnd(S, i), a) ELSE Token("ERR", i, i + CharLen(c), a)
  ELSE IF StartTable[c] THEN Word(S, i, a)
  ELSE IF c = 48 /\ d \in {66, 98} THEN Token("BIN", i, BinEnd(S, i + 2), a)
  ELSE IF c = 48 /\ d \in {79, 111} THEN Token("NUM", i, OctEnd(S, i + 2), a)
  ELSE IF c = 48 /\ d \in {88, 120} THEN Token("NUM", i, HexEnd(S, i + 2), a)
  ELSE IF Digit(c) THEN Numeral(S, i, DecimalEnd(S, i), a)
  ELSE IF c \in {34, 39} THEN StringFrom(S, i, c, i + 1, a)
  ELSE IF c = 96 THEN TemplateScan(S, i, i + 1, i + 1, a)
  ELSE IF c = 46 THEN
    IF Digit(d) THEN Numeral(S, i, FloatEnd(S, i + 1), a)
    ELSE IF d = 46 THEN
      IF B(S, i + 2) = 46 THEN Token("...", i, i + 3, a) ELSE Token("ERR", i, i + 2, a)
    ELSE AccessorScan(S, i, i + 1, a)
  ELSE LET l == PunctLen(S, i)
           w == Slice(S, i, i + l)
       IN IF l = 0 THEN Token("ERR", i, i + 1, a)
          ELSE Token(w, i, i + l, IF w = ";" THEN "X" ELSE IF w \in {")", "}"} THEN "I" ELSE a)

\* whitespace and comments before the token
RECURSIVE Scan(_, _, _)
Scan(S, i, a) ==
  LET c == B(S, i) IN
  IF i >= S.n THEN TokenAt(S, i, a)
  ELSE IF c <= 32 THEN LET j == Run(S, i, BlankTable) IN Scan(S, j, IF HasBreak(S, i, j) THEN "I" ELSE a)
  ELSE IF c = 47 /\ B(S, i + 1) = 47 THEN Scan(S, LineEnd(S, i + 2), a)
  ELSE IF c = 47 /\ B(S, i + 1) = 42 THEN
    LET j == CommentEnd(S, i + 2)
        e == IF j = -1 THEN S.n ELSE j
        b == IF HasBreak(S, i, e) THEN "I" ELSE a
    IN IF j = -1 THEN Token("EEOF", i, e, b) ELSE Scan(S, e, b)
  ELSE TokenAt(S, i, a)

(* The three ways in which the next token is obtained: from a position, after a *)
(* closing brace that ends a substitution, and after a slash in operand position *)
TokenFrom(S, i) == Scan(S, i, "N")
First(S)        == TokenFrom(S, 0)
Next(S, t)      == TokenFrom(S, t.e)

TemplateRest(S, t) == TemplateScan(S, t.s, t.e, t.e, t.a)

RegexTable == Except({10, 47, 91, 92, 93})
RECURSIVE RegexScan(_, _, _, _, _)
RegexScan(S, s, i0, class, a) ==
  LET i == Run(S, i0, RegexTable)
      d == B(S, i)
  IN
  IF i >= S.n THEN Token("EEOF", s, i, a)
  ELSE IF d = 10 THEN Token("ERR", s, i + 1, a)
  ELSE IF d = 92 THEN IF i + 1 >= S.n THEN Token("EEOF", s, i + 1, a) ELSE RegexScan(S, s, i + 2, class, a)
  ELSE IF d = 91 THEN RegexScan(S, s, i + 1, TRUE, a)
  ELSE IF d = 93 THEN RegexScan(S, s, i + 1, FALSE, a)
  ELSE IF d = 47 /\ ~class THEN Token("REGEX", s, FlagsEnd(S, i + 1), a)
  ELSE RegexScan(S, s, i + 1, class, a)

RegexRest(S, t) == RegexScan(S, t.s, t.e, FALSE, t.a)

\* the tokens of S; d says for every slash and closing brace whether it starts a regular
\* expression or continues a template
RECURSIVE TokensFrom(_, _, _, _, _)
TokensFrom(S, t0, d, i, acc) ==
  LET asked == t0.k \in {"/", "/=", "}"}
      t == IF asked /\ i <= Len(d) /\ d[i]
           THEN IF t0.k = "}" THEN TemplateRest(S, t0) ELSE RegexRest(S, t0)
           ELSE t0
      acc2 == Append(acc, t)
  IN IF t.k = "EOF" THEN acc2
     ELSE TokensFrom(S, Next(S, t), d, IF asked THEN i + 1 ELSE i, acc2)
Tokens(S, d) == TokensFrom(S, First(S), d, 1, <<>>)

(***************************************************************************)
(* Strings that the specification itself produces                          *)
(***************************************************************************)
TextOf(S, t) == Slice(S, t.s, t.e)
=============================================================================
