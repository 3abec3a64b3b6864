---------------------------- MODULE RecordTools ----------------------------
(***************************************************************************)
(* What the tools that work on files of records do, as relations between    *)
(* the records that go in and the records that come out.                    *)
(*                                                                          *)
(* A record is [m, f, steps, score, qsteps, tm]:                            *)
(*   m       the machine, by name                                           *)
(*   f       the other stored fields: a set of <<name, value>> (strings);   *)
(*           fields that are unset, false or 0 are not in the set           *)
(*   steps, score, qsteps   numbers as sequences of base 10000 digits, low  *)
(*           first, <<-1>> when not stored                                  *)
(*   tm      the transition table                                           *)
(***************************************************************************)
EXTENDS Enumeration

\* ---------------------------------------------------------------- numbers
None == <<-1>>
RECURSIVE Strip(_)
Strip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
Num(a) == IF a = None THEN <<>> ELSE Strip(a)       \* nothing stored counts as 0
NumLess(a0, b0) ==
  LET a == Num(a0)  b == Num(b0) IN
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET d == {j \in 1..Len(a) : a[j] # b[j]} IN
       d # {} /\ LET top == CHOOSE j \in d : \A k \in d : k <= j IN a[top] < b[top]
Small(a) == LET n == Num(a) IN Len(n) = 0 \/ (Len(n) = 1 /\ n[1] < 1000)

\* ----------------------------------------------------------------- fields
Has(r, name) == \E x \in r.f : x[1] = name
Val(r, name) == IF Has(r, name) THEN (CHOOSE x \in r.f : x[1] = name)[2] ELSE ""
Decided(r) == Has(r, "status.halt_status.is_decided")
Halting(r) == Has(r, "status.halt_status.is_halting")
QDecided(r) == Has(r, "status.quasihalt_status.is_decided")
QHalting(r) == Has(r, "status.quasihalt_status.is_quasihalting")

\* ------------------------------------------------------------- categories
Classes == <<"unknown", "halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite">>
Class(r) == IF ~Decided(r) THEN "unknown"
            ELSE IF Halting(r) THEN (IF r.steps = None THEN "halt.unk" ELSE IF Small(r.steps) THEN "halt.small" ELSE "halt.large")
            ELSE IF QHalting(r) THEN (IF r.qsteps = None THEN "qhalt.unk" ELSE IF Small(r.qsteps) THEN "qhalt.small" ELSE "qhalt.large")
            ELSE "infinite"
OfClass(in, cl) == SelectSeq(in, LAMBDA r : Class(r) = cl)
\* The classes are a partition: every record in exactly one file, in input order.
Categorized(in, out) == \A j \in 1..Len(Classes) : out[Classes[j]] = OfClass(in, Classes[j])

\* ---------------------------------------------------------------- sorting
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
IsPermutation(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(a, x) = Count(b, x)
Descending(s) == \A j \in 1..(Len(s) - 1) : ~NumLess(s[j].score, s[j + 1].score)
Sorted(in, out) == IsPermutation(in, out) /\ Descending(out)

\* --------------------------------------------------------------- sampling
Among(a, b) == \A x \in Range(a) : Count(a, x) <= Count(b, x)
Sampled(in, n, out) == Among(out, in) /\ Len(out) = (IF n < Len(in) THEN n ELSE Len(in))

\* ---------------------------------------------------------------- filters
\* own: the names of the fields which hold the filter's own report; reason: its InfReason.
\* fresh: the filter starts every record anew (drops earlier results).
Under(name, pre) == Len(name) >= Len(pre) /\ SubSeq(name, 1, Len(pre)) = pre
StatusName(n) == Under(n, "status.")
Rest(r, own) == {x \in r.f : ~Under(x[1], own) /\ ~StatusName(x[1])}
Status(r) == {x \in r.f : StatusName(x[1])}
Verdict0 == {"status.halt_status.is_decided", "status.halt_status.is_halting", "status.halt_status.inf_reason",
             "status.quasihalt_status.is_decided"}
Filtered(b, a, own, reason, success, fresh) ==
  LET b1 == IF fresh THEN [b EXCEPT !.f = {}] ELSE b IN
  /\ a.m = b.m
  /\ Rest(a, own) = Rest(b1, own)
  /\ IF success
     THEN /\ Decided(a) /\ ~Halting(a) /\ Val(a, "status.halt_status.inf_reason") = reason
          \* Whether the machine quasihalts is not what these filters decide.
          /\ QDecided(a) => QDecided(b1)
          /\ \A x \in Status(a) : x[1] \in Verdict0 \/ x \in Status(b1)
     ELSE Status(a) = Status(b1)

\* --------------------------------------------------------- zero reflexive
\* Some state returns to itself when it reads a blank (an undefined cell may become one).
ZeroReflexive(tm) == \E q \in 1..Len(tm) : IsUndef(tm[q][1]) \/ tm[q][1][3] = q - 1
==============================================================================
