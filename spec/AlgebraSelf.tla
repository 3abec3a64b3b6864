----------------------------- MODULE AlgebraSelf -----------------------------
(***************************************************************************)
(* A rule applied again and again, step by step: a run length changes by    *)
(* x := m x + b, the number of steps adds up a polynomial of the repetition *)
(* number.  The closed forms by which the simulator does many repetitions   *)
(* at once agree with the steps, and so do the definitions of Algebra.      *)
(***************************************************************************)
EXTENDS Algebra
VARIABLES n, m, b, x0, x, s     \* repetitions, function, start, value, sums of k^0 .. k^3
vars == <<n, m, b, x0, x, s>>
Init == /\ n = 0 /\ m \in 1..3 /\ b \in -3..3 /\ x0 \in 0..5 /\ x = x0 /\ s = <<0, 0, 0, 0>>
Next == /\ n < 8 /\ n' = n + 1 /\ x' = m * x + b
        /\ s' = [k \in 1..4 |-> s[k] + (IF k = 1 THEN 1 ELSE n ^ (k - 1))]
        /\ UNCHANGED <<m, b, x0>>
Spec == Init /\ [][Next]_vars
P == 46337
ClosedMult == m > 1 => x * (m - 1) = (x0 * (m - 1) + b) * m ^ n - b
ClosedAdd == m = 1 => x = x0 + n * b
ClosedSums == /\ s[1] = n
              /\ 2 * s[2] = n * (n - 1)
              /\ 6 * s[3] = n * (n - 1) * (2 * n - 1)
              /\ 4 * s[4] = (n * (n - 1)) * (n * (n - 1))
Body == <<"+", <<"*", <<"c", m, 1>>, <<"v", 1>>>>, <<"c", b, 1>>>>
RepOK == At(<<"rep", 1, <<"c", n, 1>>, Body>>, <<x0>>, P) = x % P
SumOK == \A k \in 1..4 : At(<<"sum", 1, <<"c", n, 1>>, <<"^", <<"v", 1>>, k - 1>>>>, <<x0>>, P) = s[k] % P
NotLess == (m > 1 /\ x0 * (m - 1) + b >= 0) => x >= x0   \* the bound used by Mult_Func
TakeOK == (m = 1 /\ b < 0) => LET r == TakeAway(x0, 2, -b, 0) IN
             (x0 >= 2 /\ n = r[1]) => (x = r[2] /\ x < 2 /\ x - b >= 2)
==============================================================================
