------------------------------ MODULE Doubles -------------------------------
(* Which floating point number stands for a number of any size.                *)
(*                                                                             *)
(* A double is given as m * 2^x with 2^52 <= m < 2^53 and -1074 <= x <= 971,   *)
(* or 0 <= m < 2^52 and x = -1074.  The double next to a number v is the one   *)
(* with the smallest distance, the one with an even m if two are equally far.  *)
(* Numbers are compared exactly: natural numbers are sequences of limbs of     *)
(* four decimal digits, the lowest first, the last one is not zero.            *)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Limb == 10000

RECURSIVE Normal(_)
Normal(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Normal(SubSeq(a, 1, Len(a) - 1)) ELSE a

\* a sequence of decimal digits, the highest first
OfDigits(d) ==
  LET n == Len(d)
      at(i) == IF i >= 1 THEN d[i] ELSE 0
      limb(k) == LET low == n - 4 * (k - 1) IN at(low) + 10 * at(low - 1) + 100 * at(low - 2) + 1000 * at(low - 3)
  IN Normal([k \in 1..((n + 3) \div 4) |-> limb(k)])

Digits(a) ==
  [i \in 1..(4 * Len(a)) |->
    LET low == 4 * Len(a) - i
        limb == a[low \div 4 + 1]
    IN CASE low % 4 = 0 -> limb % 10 [] low % 4 = 1 -> (limb \div 10) % 10
         [] low % 4 = 2 -> (limb \div 100) % 10 [] OTHER -> limb \div 1000]

RECURSIVE Limbs(_)
Limbs(c) == IF c = 0 THEN <<>> ELSE <<c % Limb>> \o Limbs(c \div Limb)

\* a * m + c, for m and c up to 2^17
Scaled(a, m, c) ==
  LET step(acc, limb) == LET x == limb * m + acc[2] IN <<Append(acc[1], x % Limb), x \div Limb>>
      r == FoldLeft(step, <<<<>>, c>>, a)
  IN Normal(r[1] \o Limbs(r[2]))

RECURSIVE Pow(_, _), TimesTwo(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* a * 2^n
TimesTwo(a, n) == IF n <= 0 THEN a ELSE IF n <= 16 THEN Scaled(a, Pow(2, n), 0) ELSE TimesTwo(Scaled(a, 65536, 0), n - 16)
\* a * 10^n
TimesTen(a, n) ==
  IF n <= 0 \/ a = <<>> THEN a ELSE Scaled([i \in 1..(n \div 4) |-> 0] \o a, Pow(10, n % 4), 0)

\* a < b is -1, a = b is 0, a > b is 1
Compare(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in DOMAIN a : a[i] # b[i]}
       IN IF D = {} THEN 0
          ELSE LET i == CHOOSE i \in D : \A k \in D : k <= i IN IF a[i] < b[i] THEN -1 ELSE 1

\* the difference a - 1 of a number that is not zero
RECURSIVE Less(_, _)
Less(a, i) == IF a[i] > 0 THEN Normal([a EXCEPT ![i] = @ - 1]) ELSE Less([a EXCEPT ![i] = Limb - 1], i + 1)

\* how d * 10^e compares with n * 2^x / 4, for a sequence of digits d and limbs n
LOCAL Against(d, e, n, x) ==
  Compare(TimesTen(TimesTwo(OfDigits(d), 2 + (IF x < 0 THEN -x ELSE 0)), e),
          TimesTen(TimesTwo(n, x), -e))

TwoTo52 == <<496, 2737, 5996, 4503>>

\* m (digits, the highest first) * 2^x is the double that stands for d * 10^e
Nearest(d, e, m, x) ==
  LET n == OfDigits(m)
      even == n = <<>> \/ n[1] % 2 = 0
      above == Against(d, e, Scaled(n, 4, 2), x)
      \* below a power of two the doubles are twice as close
      first == n = TwoTo52 /\ x > -1074
      below == IF n = <<>> THEN 1
               ELSE Against(d, e, IF first THEN Less(Scaled(n, 4, 0), 1) ELSE Less(Less(Scaled(n, 4, 0), 1), 1), x)
  IN /\ above < 0 \/ (above = 0 /\ even)
     /\ below > 0 \/ (below = 0 /\ even)

\* d * 10^e is too large for a double: it is not below 2^1024 - 2^970
TooLarge(d, e) == Against(d, e, Less(Less(Scaled(TimesTwo(<<1>>, 53), 4, 0), 1), 1), 971) >= 0
=============================================================================
