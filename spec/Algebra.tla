------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* What symbolic expressions mean.  An expression is a tree; its value at a *)
(* point (one integer per variable) is computed in the field of a prime P   *)
(* (so that fractions have values and nothing grows).                       *)
(*   <<"c", n, d>>    the number n/d                                        *)
(*   <<"v", i>>       the i-th variable                                     *)
(*   <<"+", e, f>>  <<"-", e, f>>  <<"*", e, f>>  <<"n", e>>  <<"^", e, k>>  *)
(*   <<"/", e, d>>    division by the integer d                             *)
(*   <<"sub", e, s>>  e with, for all i at once, s[i] in place of variable i *)
(*   <<"sum", i, n, e>>  the sum of e for variable i = 0, 1 .. n-1, where n  *)
(*                    is a number or variable expression                    *)
(*   <<"rep", i, n, e>>  e with e .. (n times) in place of variable i: the   *)
(*                    effect of doing i := e n times, as a value of i       *)
(*   <<"p", b, e>>    the integer b to the power e (e a number >= 0 there)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE PPow(_, _, _)
PPow(b, k, p) == IF k = 0 THEN 1 % p
                 ELSE LET h == PPow(b, k \div 2, p)
                          q == (h * h) % p
                      IN IF k % 2 = 0 THEN q ELSE (q * (b % p)) % p
Inv(x, p) == PPow(x % p, p - 2, p)

\* exact value of an expression used as a count or exponent (small)
RECURSIVE Count(_, _)
Count(e, pt) ==
  CASE e[1] = "c" -> e[2]
    [] e[1] = "v" -> pt[e[2]]
    [] e[1] = "+" -> Count(e[2], pt) + Count(e[3], pt)
    [] e[1] = "-" -> Count(e[2], pt) - Count(e[3], pt)
    [] e[1] = "*" -> Count(e[2], pt) * Count(e[3], pt)
    [] e[1] = "n" -> -Count(e[2], pt)

\* env: field values of the variables; pt: their integer values
RECURSIVE Val(_, _, _, _)
RECURSIVE SumTo(_, _, _, _, _, _)
RECURSIVE Repeat(_, _, _, _, _, _)
SumTo(e, i, n, pt, env, p) ==
  IF n <= 0 THEN 0
  ELSE (SumTo(e, i, n - 1, pt, env, p)
        + Val(e, [pt EXCEPT ![i] = n - 1], [env EXCEPT ![i] = (n - 1) % p], p)) % p
Repeat(e, i, n, pt, env, p) ==
  IF n <= 0 THEN env[i]
  ELSE Val(e, pt, [env EXCEPT ![i] = Repeat(e, i, n - 1, pt, env, p)], p)
Val(e, pt, env, p) ==
  CASE e[1] = "c" -> ((e[2] % p) * Inv(e[3], p)) % p
    [] e[1] = "v" -> env[e[2]]
    [] e[1] = "+" -> (Val(e[2], pt, env, p) + Val(e[3], pt, env, p)) % p
    [] e[1] = "-" -> (Val(e[2], pt, env, p) - Val(e[3], pt, env, p)) % p
    [] e[1] = "*" -> (Val(e[2], pt, env, p) * Val(e[3], pt, env, p)) % p
    [] e[1] = "n" -> (-Val(e[2], pt, env, p)) % p
    [] e[1] = "^" -> PPow(Val(e[2], pt, env, p), e[3], p)
    [] e[1] = "/" -> (Val(e[2], pt, env, p) * Inv(e[3], p)) % p
    [] e[1] = "sub" -> LET env2 == [i \in 1..Len(pt) |-> Val(e[3][i], pt, env, p)]
                       IN Val(e[2], pt, env2, p)
    [] e[1] = "sum" -> SumTo(e[4], e[2], Count(e[3], pt), pt, env, p)
    [] e[1] = "rep" -> Repeat(e[4], e[2], Count(e[3], pt), pt, env, p)
    [] e[1] = "p" -> PPow(e[2], Count(e[3], pt), p)
At(e, pt, p) == Val(e, pt, [i \in 1..Len(pt) |-> pt[i] % p], p)

\* exact rational arithmetic for small numbers: <<numerator, denominator>>, denominator > 0
RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN a ELSE G(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == LET g == G(AbsI(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
QAdd(a, b) == Red(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
QMul(a, b) == Red(a[1] * b[1], a[2] * b[2])
QNeg(a) == <<-a[1], a[2]>>
RECURSIVE QPow(_, _)
QPow(a, k) == IF k = 0 THEN <<1, 1>> ELSE QMul(a, QPow(a, k - 1))
RECURSIVE QVal(_, _)
QVal(e, env) ==
  CASE e[1] = "c" -> Red(e[2], e[3])
    [] e[1] = "v" -> env[e[2]]
    [] e[1] = "+" -> QAdd(QVal(e[2], env), QVal(e[3], env))
    [] e[1] = "-" -> QAdd(QVal(e[2], env), QNeg(QVal(e[3], env)))
    [] e[1] = "*" -> QMul(QVal(e[2], env), QVal(e[3], env))
    [] e[1] = "n" -> QNeg(QVal(e[2], env))
    [] e[1] = "^" -> QPow(QVal(e[2], env), e[3])
    [] e[1] = "/" -> LET x == QVal(e[2], env) IN
                     IF e[3] > 0 THEN Red(x[1], x[2] * e[3]) ELSE Red(-x[1], x[2] * (-e[3]))
    [] e[1] = "p" -> QPow(<<e[2], 1>>, QVal(e[3], env)[1])
    [] e[1] = "sub" -> LET env2 == [i \in 1..Len(env) |-> QVal(e[3][i], env)] IN QVal(e[2], env2)
Exact(e, pt) == QVal(e, [i \in 1..Len(pt) |-> <<pt[i], 1>>])

(***************************************************************************)
(* A rule that takes c from x as long as x >= min: how often it can be      *)
(* applied, and what is left.                                               *)
(***************************************************************************)
RECURSIVE TakeAway(_, _, _, _)
TakeAway(x, min, c, n) == IF x < min THEN <<n, x>> ELSE TakeAway(x - c, min, c, n + 1)
=============================================================================
