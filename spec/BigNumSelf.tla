----------------------------- MODULE BigNumSelf -----------------------------
(***************************************************************************)
(* The three views of BigNum agree with each other and with TLC's integers  *)
(* on all small expressions (sanity of the specification itself).           *)
(***************************************************************************)
EXTENDS BigNum, TLC
VARIABLE e, v       \* an expression and its value
I(n) == <<"i", IF n < 0 THEN -1 ELSE 1, NatOf(Abs(n))>>
Ints == {-20007, -3, 0, 1, 2, 7, 99, 10000}
Init == \E n \in Ints : e = I(n) /\ v = n
Limit == 4000000
Next ==
  \/ \E n \in Ints : /\ Abs(v + n) < Limit /\ e' = <<"+", e, I(n)>> /\ v' = v + n
  \/ \E n \in {-3, 7} : /\ e' = <<"-", I(n), e>> /\ v' = n - v
  \/ \E n \in {-3, 2, 99} : /\ Abs(v) < 30000 /\ Abs(v * n) < Limit /\ e' = <<"*", e, I(n)>> /\ v' = v * n
  \/ \E d \in {2, -5} : /\ v % Abs(d) = 0 /\ e' = <<"/", e, d>> /\ v' = (IF d < 0 THEN -1 ELSE 1) * (v \div Abs(d))
  \/ \E b \in {2, 3, 10} : /\ v >= 0 /\ v < 7 /\ e' = <<"^", b, e>> /\ v' = b ^ v
Depth == TLCGet("level") < 4
Spec == Init /\ [][Next]_<<e, v>>
ExactOK == Exact(e) = IntOf(v)
ModOK == \A m \in {1, 2, 9, 16, 97, 101, 46337} : LET r == ValMod(e, m) IN r = -1 \/ r = v % m
MagOK == LET x == Mag(e) IN
  CASE x.k = "int" -> x.lo = v
    [] x.k = "big" -> x.s = Sgn(v) /\ x.h = 1 /\ LLo(Abs(v)) <= x.hi /\ x.lo <= LHi(Abs(v))
    [] OTHER -> TRUE
\* A remainder is that of the exact number also when exponents are reduced.
PowOK == v >= 16 /\ v <= 1100 => \A m \in {64, 81, 97, 100} :
           PowMod(2 % m, (v % Phi(m)) + Phi(m), m) = IMod(IPow(2, v), m)
==============================================================================
