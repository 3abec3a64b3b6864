---------------------------- MODULE AlgebraCases ----------------------------
(***************************************************************************)
(* Judges results of the symbolic algebra.                                  *)
(*  val     the code's value v[j] (modulo each prime) of e at point pts[j]   *)
(*  eq      the code's answer (1/0) to e = f; pts is a full grid, on which   *)
(*          different polynomials of these degrees differ somewhere          *)
(*  min     the code's lower bound m of e for variables >= 0 (none: fin = 0) *)
(*  low     a lower bound that need not be attained                          *)
(*  restr   the code says e is variable v plus a constant                   *)
(*  linear  the code says e = slope * variable v + const                    *)
(*  ge, gt  the code says e >= f (e > f) whatever the variables             *)
(*  take    Subtract_Func.max_reps                                          *)
(*  grow    the code says i := e does not decrease i from min on            *)
(***************************************************************************)
EXTENDS Algebra, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
vars == <<i, out>>
Primes == <<46337, 46327, 45989>>

ValV(c) == IF \A j \in 1..Len(c.pts) : \A q \in 1..3 : At(c.e, c.pts[j], Primes[q]) = c.v[j][q]
           THEN "ok" ELSE "wrong-value"
Same(e, f, pts) == \A j \in 1..Len(pts) : \A q \in 1..3 : At(e, pts[j], Primes[q]) = At(f, pts[j], Primes[q])
EqV(c) == IF Same(c.e, c.f, c.pts) = (c.ans = 1) THEN "ok" ELSE "wrong-equality"
QGe(a, b) == a[1] * b[2] >= b[1] * a[2]
MinV(c) == IF c.fin = 0 THEN "ok"
           ELSE IF \E j \in 1..Len(c.pts) : ~QGe(Exact(c.e, c.pts[j]), c.m) THEN "not-a-lower-bound"
           ELSE IF \A j \in 1..Len(c.pts) : Exact(c.e, c.pts[j]) # Red(c.m[1], c.m[2]) THEN "bound-not-attained"
           ELSE "ok"
LowV(c) == IF \E j \in 1..Len(c.pts) : ~QGe(Exact(c.e, c.pts[j]), c.m) THEN "not-a-lower-bound" ELSE "ok"
RestrV(c) == LET d == <<"-", c.e, <<"v", c.var>>>>
             IN IF \A j \in 1..Len(c.pts) : \A q \in 1..3 : At(d, c.pts[j], Primes[q]) = At(d, c.pts[1], Primes[q])
                THEN "ok" ELSE "not-of-this-form"
LinV(c) == LET f == <<"+", <<"*", <<"c", c.slope[1], c.slope[2]>>, <<"v", c.var>>>>, <<"c", c.const[1], c.const[2]>>>>
           IN IF Same(c.e, f, c.pts) THEN "ok" ELSE "not-of-this-form"
OrderV(c) == IF c.ans = 0 THEN "ok"
             ELSE IF \A j \in 1..Len(c.pts) :
                       LET a == Exact(c.e, c.pts[j]) b == Exact(c.f, c.pts[j])
                       IN IF c.k = "ge" THEN QGe(a, b) ELSE ~QGe(b, a)
                  THEN "ok" ELSE "wrong-order"
TakeV(c) == LET r == TakeAway(c.x, c.min, c.c, 0)
            IN IF c.x < c.min \/ (r[1] = c.n /\ r[2] = c.rest) THEN "ok" ELSE "wrong-repetitions"
GrowV(c) == \* (a b^(u x + v) + w)/d >= x, or m x + w >= x with a = 0
  IF \A x \in c.min..(c.min + 12) :
       IF c.a = 0 THEN c.m * x + c.w >= x
       ELSE c.u * x + c.vv > 25 \/ \* beyond: the left side is past any x here
            LET y == c.u * x + c.vv
            IN y < 0 \/ LET RECURSIVE Pw(_)
                            Pw(k) == IF k = 0 THEN 1 ELSE LET z == Pw(k - 1) IN IF z > 100000 THEN z ELSE c.b * z
                        IN c.a * Pw(y) + c.w >= c.d * x
  THEN "ok" ELSE "decreases"
Verdict(c) == CASE c.k = "val" -> ValV(c)
                [] c.k = "eq" -> EqV(c)
                [] c.k = "min" -> MinV(c)
                [] c.k = "low" -> LowV(c)
                [] c.k = "restr" -> RestrV(c)
                [] c.k = "linear" -> LinV(c)
                [] c.k \in {"ge", "gt"} -> OrderV(c)
                [] c.k = "take" -> TakeV(c)
                [] c.k = "grow" -> GrowV(c)

Init == i \in 1..Len(Cases) /\ out = "no"
Next == /\ out = "no"
        /\ out' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o out')
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
==============================================================================
