------------------------------ MODULE BigNum ------------------------------
(***************************************************************************)
(* The value of an expression built from integers by + - * exact division   *)
(* and powers of integers, however large.  Expressions are tuples:          *)
(*   <<"i", sign, limbs>>   integer; limbs base 10^4, least significant     *)
(*                          first                                           *)
(*   <<"+", a, b>> <<"-", a, b>> <<"*", a, b>> <<"n", a>> (negation)        *)
(*   <<"/", a, d>>          exact division by the (small) integer d         *)
(*   <<"^", b, e>>          small integer b >= 2 to the power of e >= 0     *)
(*                                                                          *)
(* Three views of the value, all defined here:                              *)
(*   Exact   the number itself, while it has at most MaxLimbs limbs         *)
(*   ValMod  its remainder modulo m, at any size                            *)
(*   Mag     its sign and an interval around its iterated logarithm         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Base == 10000

\* ------------------------------------------------- naturals as limb sequences
RECURSIVE TrimZ(_)
TrimZ(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN TrimZ(SubSeq(a, 1, Len(a) - 1)) ELSE a
Limb(a, j) == IF j <= Len(a) THEN a[j] ELSE 0

NatAdd(a, b) ==
  LET n == Max2(Len(a), Len(b)) + 1
      st == FoldLeft(LAMBDA s, j : LET t == Limb(a, j) + Limb(b, j) + s.c
                                   IN [c |-> t \div Base, r |-> Append(s.r, t % Base)],
                     [c |-> 0, r |-> <<>>], [j \in 1..n |-> j])
  IN TrimZ(st.r)
\* a >= b
NatSub(a, b) ==
  LET st == FoldLeft(LAMBDA s, j : LET t == a[j] - Limb(b, j) - s.c
                                   IN IF t < 0 THEN [c |-> 1, r |-> Append(s.r, t + Base)]
                                      ELSE [c |-> 0, r |-> Append(s.r, t)],
                     [c |-> 0, r |-> <<>>], [j \in 1..Len(a) |-> j])
  IN TrimZ(st.r)
NatCmp(a, b) ==   \* trimmed; -1, 0, 1
  IF Len(a) # Len(b) THEN Sgn(Len(a) - Len(b))
  ELSE LET d == {j \in 1..Len(a) : a[j] # b[j]} IN
       IF d = {} THEN 0 ELSE LET j == CHOOSE x \in d : \A y \in d : y <= x IN Sgn(a[j] - b[j])
NatScale(a, k) ==    \* k < Base
  LET st == FoldLeft(LAMBDA s, x : LET t == x * k + s.c IN [c |-> t \div Base, r |-> Append(s.r, t % Base)],
                     [c |-> 0, r |-> <<>>], a \o <<0>>)
  IN TrimZ(st.r)
NatShift(a, k) == IF a = <<>> THEN a ELSE [j \in 1..(k + Len(a)) |-> IF j <= k THEN 0 ELSE a[j - k]]
NatMul(a, b) == FoldLeft(LAMBDA s, j : NatAdd(s, NatShift(NatScale(a, b[j]), j - 1)), <<>>, [j \in 1..Len(b) |-> j])
\* quotient and remainder by a small number d < 200000
NatDiv(a, d) ==
  LET st == FoldLeft(LAMBDA s, j : LET t == s.c * Base + a[Len(a) + 1 - j]
                                   IN [c |-> t % d, r |-> <<t \div d>> \o s.r],
                     [c |-> 0, r |-> <<>>], [j \in 1..Len(a) |-> j])
  IN [q |-> TrimZ(st.r), r |-> st.c]
RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatOf(n \div Base)

\* Integers as [s |-> sign, n |-> natural]; None where the number is too long.
None == [s |-> 9, n |-> <<>>]
MaxLimbs == 90
Mk(s, n) == IF n = <<>> THEN [s |-> 0, n |-> n] ELSE IF Len(n) > MaxLimbs THEN None ELSE [s |-> s, n |-> n]
IntOf(x) == Mk(Sgn(x), NatOf(Abs(x)))
IAdd(a, b) ==
  IF a = None \/ b = None THEN None
  ELSE IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN Mk(a.s, NatAdd(a.n, b.n))
  ELSE LET c == NatCmp(a.n, b.n) IN
       IF c = 0 THEN IntOf(0) ELSE IF c > 0 THEN Mk(a.s, NatSub(a.n, b.n)) ELSE Mk(b.s, NatSub(b.n, a.n))
INeg(a) == IF a = None THEN None ELSE [a EXCEPT !.s = -a.s]
IMul(a, b) == IF a = None \/ b = None THEN None
              ELSE IF Len(a.n) + Len(b.n) > MaxLimbs + 1 THEN None ELSE Mk(a.s * b.s, NatMul(a.n, b.n))
ICmp(a, b) == IF a.s # b.s THEN Sgn(a.s - b.s) ELSE IF a.s >= 0 THEN NatCmp(a.n, b.n) ELSE NatCmp(b.n, a.n)
\* d # 0; exact division
IDiv(a, d) == IF a = None \/ Abs(d) >= 200000 THEN None
              ELSE LET x == NatDiv(a.n, Abs(d)) IN IF x.r # 0 THEN None ELSE Mk(a.s * Sgn(d), x.q)
\* remainder with the sign of the divisor m > 0
IMod(a, m) == LET x == NatDiv(a.n, m).r IN IF a.s >= 0 \/ x = 0 THEN x ELSE m - x
\* as a TLC integer, if it has at most 2 limbs
Small(a) == a # None /\ Len(a.n) <= 2
ToInt(a) == a.s * (Limb(a.n, 1) + Base * Limb(a.n, 2))

RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN IntOf(1)
              ELSE LET h == IPow(b, k \div 2)
                       q == IMul(h, h)
                   IN IF k % 2 = 0 THEN q ELSE IMul(q, IntOf(b))

RECURSIVE Exact(_)
Exact(e) ==
  CASE e[1] = "i" -> Mk(e[2], TrimZ(e[3]))
    [] e[1] = "+" -> IAdd(Exact(e[2]), Exact(e[3]))
    [] e[1] = "-" -> IAdd(Exact(e[2]), INeg(Exact(e[3])))
    [] e[1] = "n" -> INeg(Exact(e[2]))
    [] e[1] = "*" -> IMul(Exact(e[2]), Exact(e[3]))
    [] e[1] = "/" -> IDiv(Exact(e[2]), e[3])
    [] e[1] = "^" -> LET k == Exact(e[3]) IN
                     IF Small(k) /\ k.s >= 0 /\ ToInt(k) <= 1300 THEN IPow(e[2], ToInt(k)) ELSE None

\* ------------------------------------------------------------- magnitudes
LogLo == <<0, 41, 79, 113, 146, 176, 204, 230, 255, 278, 301, 322, 342, 361, 380, 397, 414, 431, 447, 462, 477, 491, 505, 518, 531, 544, 556, 568, 579, 591, 602, 612, 623, 633, 643, 653, 662, 672, 681, 690, 698, 707, 716, 724, 732, 740, 748, 755, 763, 770, 778, 785, 792, 799, 806, 812, 819, 826, 832, 838, 845, 851, 857, 863, 869, 875, 880, 886, 892, 897, 903, 908, 913, 919, 924, 929, 934, 939, 944, 949, 954, 959, 963, 968, 973, 977, 982, 986, 991, 995, 1000>>
LogHi == <<0, 42, 80, 114, 147, 177, 205, 231, 256, 279, 302, 323, 343, 362, 381, 398, 415, 432, 448, 463, 478, 492, 506, 519, 532, 545, 557, 569, 580, 592, 603, 613, 624, 634, 644, 654, 663, 673, 682, 691, 699, 708, 717, 725, 733, 741, 749, 756, 764, 771, 779, 786, 793, 800, 807, 813, 820, 827, 833, 839, 846, 852, 858, 864, 870, 876, 881, 887, 893, 898, 904, 909, 914, 920, 925, 930, 935, 940, 945, 950, 955, 960, 964, 969, 974, 978, 983, 987, 992, 996, 1000>>
\* 1000 * log10(n) for n >= 1, from below and above
RECURSIVE LLo(_)
LLo(n) == IF n >= 100 THEN 1000 + LLo(n \div 10) ELSE IF n >= 10 THEN 1000 + LogLo[n - 9]
          ELSE IF n = 1 THEN 0 ELSE LogLo[10 * n - 9]
RECURSIVE LHi(_)
LHi(n) == IF n >= 100 THEN 1000 + LHi((n + 9) \div 10) ELSE IF n >= 10 THEN 1000 + LogHi[n - 9]
          ELSE IF n = 1 THEN 0 ELSE LogHi[10 * n - 9]

\* [k |-> "int", v |-> v]; [k |-> "big", s |-> sign, h |-> height, lo, hi] (1000 times the h-fold
\* logarithm of the absolute value lies in lo..hi); [k |-> "unk"].
MInt(v) == [k |-> "int", s |-> Sgn(v), h |-> 0, lo |-> v, hi |-> v]
Unk == [k |-> "unk", s |-> 0, h |-> 0, lo |-> 0, hi |-> 0]
RECURSIVE Big(_, _, _, _)
Big(s, h, lo, hi) ==
  IF hi > 1000000000 THEN (IF lo < 1000 THEN Unk ELSE Big(s, h + 1, LLo(lo) - 3000, LHi(hi) - 3000))
  ELSE IF lo < 3000 /\ h = 1 THEN Unk
  ELSE [k |-> "big", s |-> s, h |-> h, lo |-> lo, hi |-> hi]
IntLimit == 1000000000
\* The logarithm interval of a non-zero integer
AsBig(x) == IF x.k = "big" THEN x ELSE [k |-> "big", s |-> x.s, h |-> 1, lo |-> LLo(Abs(x.lo)), hi |-> LHi(Abs(x.lo))]
LiftTo1(x) == IF x.lo < 1 THEN Unk ELSE [x EXCEPT !.h = x.h + 1, !.lo = LLo(x.lo) - 3000, !.hi = LHi(x.hi) - 3000]
RECURSIVE Lift(_, _)
Lift(x, h) == IF x.k = "unk" \/ x.h >= h THEN x ELSE Lift(LiftTo1(x), h)

MNeg(x) == IF x.k = "int" THEN MInt(-x.lo) ELSE [x EXCEPT !.s = -x.s]
MMul(x, y) ==
  IF x.k = "unk" \/ y.k = "unk" THEN Unk
  ELSE IF x.s = 0 \/ y.s = 0 THEN MInt(0)
  ELSE IF x.k = "int" /\ y.k = "int" /\ Abs(x.lo) <= 30000 /\ Abs(y.lo) <= 30000 THEN MInt(x.lo * y.lo)
  ELSE LET a == AsBig(x) b == AsBig(y)
           h == Max2(a.h, b.h)
           a2 == Lift(a, h) b2 == Lift(b, h)
       IN IF a.h = 1 /\ b.h = 1 THEN Big(a.s * b.s, 1, a.lo + b.lo, a.hi + b.hi)
          ELSE IF a2.k = "unk" \/ b2.k = "unk"
          THEN (IF a.h > b.h THEN Big(a.s * b.s, a.h, a.lo, a.hi + 302) ELSE Big(a.s * b.s, b.h, b.lo, b.hi + 302))
          ELSE Big(a.s * b.s, h, Max2(a2.lo, b2.lo), Max2(a2.hi, b2.hi) + 302)
MDiv(x, d) ==
  IF x.k = "unk" THEN Unk
  ELSE IF x.k = "int" THEN (IF Abs(x.lo) % Abs(d) = 0 THEN MInt(Sgn(x.lo) * Sgn(d) * (Abs(x.lo) \div Abs(d))) ELSE Unk)
  ELSE IF x.h = 1 THEN Big(x.s * Sgn(d), 1, x.lo - LHi(Abs(d)), x.hi - LLo(Abs(d)))
  ELSE Big(x.s * Sgn(d), x.h, x.lo - 1, x.hi)
MAdd(x, y) ==
  IF x.k = "unk" \/ y.k = "unk" THEN Unk
  ELSE IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE IF x.k = "int" /\ y.k = "int" THEN
    (IF Abs(x.lo + y.lo) <= IntLimit THEN MInt(x.lo + y.lo) ELSE AsBig(MInt(x.lo + y.lo)))
  ELSE LET a == AsBig(x) b == AsBig(y)
           h == Max2(a.h, b.h)
           a2 == Lift(a, h) b2 == Lift(b, h)
           gap == IF h = 1 THEN 2000 ELSE 10
       IN IF a2.k = "unk" \/ b2.k = "unk" THEN (IF a.h > b.h + 1 THEN Big(a.s, a.h, a.lo - 1, a.hi + 1)
                                                ELSE IF b.h > a.h + 1 THEN Big(b.s, b.h, b.lo - 1, b.hi + 1) ELSE Unk)
          ELSE IF a.s = b.s THEN Big(a.s, h, Max2(a2.lo, b2.lo), Max2(a2.hi, b2.hi) + 302)
          ELSE IF a2.lo >= b2.hi + gap THEN Big(a.s, h, a2.lo - (IF h = 1 THEN 5 ELSE 1), a2.hi)
          ELSE IF b2.lo >= a2.hi + gap THEN Big(b.s, h, b2.lo - (IF h = 1 THEN 5 ELSE 1), b2.hi)
          ELSE Unk
RECURSIVE SmallPow(_, _)
SmallPow(b, k) == IF k = 0 THEN 1 ELSE b * SmallPow(b, k - 1)
MPow(b, x) ==
  IF x.k = "unk" \/ x.s < 0 THEN Unk
  ELSE IF x.k = "int" /\ x.lo <= 1000 /\ x.lo * LHi(b) <= 9000 THEN MInt(SmallPow(b, x.lo))
  ELSE IF x.k = "int" /\ x.lo <= 200000 THEN Big(1, 1, x.lo * LLo(b), x.lo * LHi(b))
  ELSE LET a == AsBig(x) IN
       IF a.h = 1 THEN Big(1, 2, a.lo - 522, a.hi + 603) ELSE Big(1, a.h + 1, a.lo - 1, a.hi + 1)

LastOf(s) == s[Len(s)]
RECURSIVE Mag(_)
Mag(e) ==
  CASE e[1] = "i" -> LET a == TrimZ(e[3]) IN
         IF Len(a) <= 2 THEN MInt(e[2] * (Limb(a, 1) + Base * Limb(a, 2)))
         ELSE LET top == a[Len(a)] * Base + a[Len(a) - 1] IN
              Big(e[2], 1, LLo(top) + 4000 * (Len(a) - 2), LHi(top + 1) + 4000 * (Len(a) - 2))
    [] e[1] = "+" -> MAdd(Mag(e[2]), Mag(e[3]))
    [] e[1] = "-" -> MAdd(Mag(e[2]), MNeg(Mag(e[3])))
    [] e[1] = "n" -> MNeg(Mag(e[2]))
    [] e[1] = "*" -> MMul(Mag(e[2]), Mag(e[3]))
    [] e[1] = "/" -> MDiv(Mag(e[2]), e[3])
    [] e[1] = "^" -> MPow(e[2], Mag(e[3]))

\* "<", "=", ">" or "?" (cannot be told from the magnitudes)
MCompare(x, y) ==
  IF x.k = "unk" \/ y.k = "unk" THEN "?"
  ELSE IF x.k = "int" /\ y.k = "int" THEN (IF x.lo < y.lo THEN "<" ELSE IF x.lo > y.lo THEN ">" ELSE "=")
  ELSE IF x.s # y.s THEN (IF x.s < y.s THEN "<" ELSE ">")
  ELSE LET a == AsBig(x) b == AsBig(y)
           h == Max2(a.h, b.h)
           a2 == Lift(a, h) b2 == Lift(b, h)
       IN IF a2.k = "unk" THEN (IF b.h > a.h + 1 THEN (IF x.s > 0 THEN "<" ELSE ">") ELSE "?")
          ELSE IF b2.k = "unk" THEN (IF a.h > b.h + 1 THEN (IF x.s > 0 THEN ">" ELSE "<") ELSE "?")
          ELSE IF a2.hi < b2.lo THEN (IF x.s > 0 THEN "<" ELSE ">")
          ELSE IF b2.hi < a2.lo THEN (IF x.s > 0 THEN ">" ELSE "<")
          ELSE "?"
Compare(x, y) ==
  LET a == Exact(x) b == Exact(y) IN
  IF a # None /\ b # None THEN (LET c == ICmp(a, b) IN IF c < 0 THEN "<" ELSE IF c > 0 THEN ">" ELSE "=")
  ELSE MCompare(Mag(x), Mag(y))

\* -------------------------------------------------------------- remainders
RECURSIVE Strip(_, _)
Strip(m, p) == IF m % p = 0 THEN Strip(m \div p, p) ELSE m
RECURSIVE PhiFrom(_, _, _)
PhiFrom(m, p, acc) ==      \* acc / p * (p - 1) for each prime p dividing m
  IF m = 1 THEN acc
  ELSE IF p * p > m THEN (acc \div m) * (m - 1)
  ELSE IF m % p = 0 THEN PhiFrom(Strip(m, p), p + 1, (acc \div p) * (p - 1))
  ELSE PhiFrom(m, p + 1, acc)
Phi(m) == PhiFrom(m, 2, m)

RECURSIVE PowMod(_, _, _)
PowMod(b, k, m) ==
  IF k = 0 THEN 1 % m
  ELSE LET h == PowMod(b, k \div 2, m)
           q == (h * h) % m
       IN IF k % 2 = 0 THEN q ELSE (q * b) % m

LimbsMod(a, m) == FoldRight(LAMBDA x, acc : (acc * (Base % m) + x) % m, a, 0)

\* -1: cannot be computed here (m too large for TLC's integers, a division that is not exact, an
\* exponent whose size is unclear).
MaxMod == 46340
RECURSIVE ValMod(_, _)
ValMod(e, m) ==
  IF m > MaxMod THEN -1
  ELSE
  CASE e[1] = "i" -> (e[2] * LimbsMod(e[3], m)) % m
    [] e[1] = "n" -> LET a == ValMod(e[2], m) IN IF a < 0 THEN -1 ELSE (-a) % m
    [] e[1] \in {"+", "-", "*"} ->
         LET a == ValMod(e[2], m)
             b == ValMod(e[3], m)
         IN IF a < 0 \/ b < 0 THEN -1
            ELSE IF e[1] = "+" THEN (a + b) % m ELSE IF e[1] = "-" THEN (a - b) % m ELSE (a * b) % m
    [] e[1] = "/" -> LET d == Abs(e[3])
                         a == IF d > MaxMod THEN -1 ELSE ValMod(e[2], m * d)
                     IN IF a < 0 \/ a % d # 0 THEN -1 ELSE (Sgn(e[3]) * (a \div d)) % m
    [] e[1] = "^" ->
         LET x == Mag(e[3])
             \* b^k depends on k mod Phi(m) only, once k >= log2(m)
             r == ValMod(e[3], Phi(m))
         IN IF x.k = "int" THEN (IF x.lo < 0 THEN -1 ELSE PowMod(e[2] % m, x.lo, m))
            ELSE IF x.k = "unk" \/ x.s < 0 \/ r < 0 THEN -1
            ELSE PowMod(e[2] % m, r + Phi(m), m)
==============================================================================
