---------------------------- MODULE BigNumCases ----------------------------
(***************************************************************************)
(* Judges results of the big-number arithmetic.                             *)
(*  eq    the expression e and what the code's result says it is (the       *)
(*        formula it prints, or an integer): equal exactly while the number *)
(*        is short, and modulo all of Moduli otherwise                      *)
(*  mod   the code says e mod m is r (an expression)                        *)
(*  cmp   the code's answers to e < f, e <= f, e > f, e >= f (1/0, -1 if it *)
(*        declined) and its sign of e - f (9: none)                         *)
(*  log   the code prints e as about 10^(v/1000)                            *)
(*  gcd, lcm, intpow, carmichael    results of the number theory helpers    *)
(***************************************************************************)
EXTENDS BigNum, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
vars == <<i, out>>

Moduli == {97, 101, 103, 89, 64, 81}
Eq(e, f) ==
  LET a == Exact(e)
      b == Exact(f)
  IN IF a # None /\ b # None THEN (IF a = b THEN "ok" ELSE "wrong-value")
     ELSE LET bad == {m \in Moduli : LET x == ValMod(e, m) y == ValMod(f, m) IN x >= 0 /\ y >= 0 /\ x # y}
              good == {m \in Moduli : ValMod(e, m) >= 0 /\ ValMod(f, m) >= 0}
          IN IF bad # {} THEN "wrong-value" ELSE IF good = {} THEN "cannot-tell" ELSE "ok"
ModV(e, m, f) ==
  LET r == Exact(f)
      x == ValMod(e, m)
      big == Exact(e)
  IN IF r = None \/ ~Small(r) THEN "wrong-remainder"
     ELSE IF big # None THEN (IF ToInt(r) = IMod(big, m) THEN "ok" ELSE "wrong-remainder")
     ELSE IF x < 0 THEN "cannot-tell"
     ELSE IF x = ToInt(r) THEN "ok" ELSE "wrong-remainder"
Want(o, op) == CASE op = "lt" -> o = "<" [] op = "gt" -> o = ">"
                 [] op = "le" -> o \in {"<", "="} [] op = "ge" -> o \in {">", "="}
\* Exactly for the same number and where the code evaluates both numbers, by magnitude otherwise (the code approximates there)
CmpV(c) ==
  LET o == IF c.e = c.f THEN "=" ELSE IF c.exact = 1 THEN Compare(c.e, c.f) ELSE MCompare(Mag(c.e), Mag(c.f))
      Bad(op, ans) == ans >= 0 /\ (ans = 1) # Want(o, op)
  IN IF o = "?" THEN "cannot-tell"
     ELSE IF Bad("lt", c.lt) \/ Bad("gt", c.gt) \/ Bad("le", c.le) \/ Bad("ge", c.ge) THEN "wrong-comparison"
     ELSE IF c.sign # 9 /\ c.sign # (IF o = "<" THEN -1 ELSE IF o = ">" THEN 1 ELSE 0) THEN "wrong-sign"
     ELSE "ok"
LogV(c) == LET x == Mag(c.e) IN
  IF x.k = "unk" THEN "cannot-tell"
  ELSE LET a == AsBig(x) IN
       IF a.h # 1 THEN "cannot-tell"
       ELSE IF a.s > 0 /\ c.v >= a.lo - 1 /\ c.v <= a.hi + 1 THEN "ok" ELSE "wrong-approximation"

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IsPower(n) == \E m \in 2..n : m * m <= n /\ \E k \in 2..30 : LLo(m) * k <= LHi(n) /\ SmallPow(m, k) = n
MathV(c) ==
  CASE c.k = "gcd" -> IF c.r = Gcd(Abs(c.a), Abs(c.b)) THEN "ok" ELSE "wrong-gcd"
    [] c.k = "lcm" -> IF c.r = (c.a \div Gcd(c.a, c.b)) * c.b THEN "ok" ELSE "wrong-lcm"
    [] c.k = "intpow" -> IF SmallPow(c.r, c.b) = c.a /\ ~IsPower(c.r) THEN "ok" ELSE "wrong-root"
    [] c.k = "carmichael" ->   \* b^(k+r) = b^k mod a for all k >= c.b
         IF \A x \in 0..(c.a - 1) : \A k \in c.b..(c.b + 1) : PowMod(x, k + c.r, c.a) = PowMod(x, k, c.a)
         THEN "ok" ELSE "wrong-period"
Verdict(c) == CASE c.k = "eq" -> Eq(c.e, c.f)
                [] c.k = "mod" -> ModV(c.e, c.m, c.f)
                [] c.k = "cmp" -> CmpV(c)
                [] c.k = "log" -> LogV(c)
                [] OTHER -> MathV(c)

Init == i \in 1..Len(Cases) /\ out = "no"
Next == /\ out = "no"
        /\ out' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o out')
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
==============================================================================
