------------------------------ MODULE LinRecur ------------------------------
(***************************************************************************)
(* Lin recurrence (translated cycles) and what follows from it, defined on  *)
(* the semantics of TuringMachine, and the validation of recorded verdicts  *)
(* of the detectors (JSON file CASES) against that definition.              *)
(*                                                                          *)
(* Recurs(tm, c, p): from configuration c the machine, after p steps, is in *)
(* the same state and everything it has looked at (and, in the direction of *)
(* travel, everything it will look at) is the same relative to the head.    *)
(* By induction the machine then repeats these p steps forever.             *)
(*                                                                          *)
(* A case is [id, tm, k, s, p, o, exact, n, score, fq, fs, qk, qn, qs]:     *)
(*  k = "lr"   recurrent from step s on with period p and offset o; with    *)
(*             exact = 1, s is the first such step                          *)
(*  k = "halt" halts at step n (score / fq, fs as in RunClaims, -1: not     *)
(*             reported)                                                    *)
(*  k = "none" neither found within n steps                                 *)
(*  k = "hint" no claim about recurrence: s, p, o is the harness's guess    *)
(*             (checked here) used to decide the quasihalting claim qk      *)
(*  qk = "q"   quasihalts at step qn in state qs; "nq" does not; "no": no   *)
(*             claim                                                        *)
(***************************************************************************)
EXTENDS TuringMachine, TLC, Json, IOUtils, FiniteSets, FiniteSetsExt

Cases == JsonDeserialize(IOEnv.CASES)
CHUNK == 200

TopK(st, k) == [j \in 1..k |-> IF j <= Len(st) THEN st[Len(st) + 1 - j] ELSE 0]

\* Run p steps, remembering the extent of the head's positions and the states used.
RunExtent(tm, c, p) ==
  FoldLeft(LAMBDA a, i :
             IF Halted(a.c) THEN a
             ELSE LET d == Step(tm, a.c) IN
               [c |-> d, lo |-> IF d.p < a.lo THEN d.p ELSE a.lo,
                hi |-> IF d.p > a.hi THEN d.p ELSE a.hi, used |-> a.used \cup {a.c.q}],
           [c |-> c, lo |-> c.p, hi |-> c.p, used |-> {}], [i \in 1..p |-> 0])

SameAround(c, e, lo, hi) ==
  LET o == e.p - c.p IN
  /\ e.q = c.q /\ e.s = c.s
  /\ IF o < 0 THEN Canon(c.l) = Canon(e.l) ELSE TopK(c.l, c.p - lo) = TopK(e.l, c.p - lo)
  /\ IF o > 0 THEN Canon(c.r) = Canon(e.r) ELSE TopK(c.r, hi - c.p) = TopK(e.r, hi - c.p)

RecursE(c, a) == ~Halted(a.c) /\ SameAround(c, a.c, a.lo, a.hi)
Recurs(tm, c, p) == LET a == RunExtent(tm, c, p) IN RecursE(c, a)

\* The eventual minimal period divides every period, so it is enough to look at p / prime.
IsPrime(x) == x > 1 /\ \A y \in 2..x : y * y > x \/ x % y # 0
ShorterPeriods(p) == {p \div x : x \in {y \in 2..(IF p < 2 THEN 1 ELSE p) : p % y = 0 /\ IsPrime(y)}}

VARIABLES i, c, prev, seen, phase, verdict
vars == <<i, c, prev, seen, phase, verdict>>
Case == Cases[i]

Target == CASE Case.k \in {"lr", "hint"} -> Case.s
            [] OTHER -> Case.n

Init == /\ i \in 1..Len(Cases)
        /\ c = Blank /\ prev = Blank
        /\ seen = [q \in 1..Len(Cases[i].tm) |-> -1]
        /\ phase = "run" /\ verdict = ""

StepAll(tm, a) ==
  IF Halted(a.c) THEN a
  ELSE [c |-> Step(tm, a.c), prev |-> a.c, seen |-> [a.seen EXCEPT ![a.c.q + 1] = a.c.n]]
RunAll(tm, a, m) == FoldLeft(LAMBDA x, j : StepAll(tm, x), a, [j \in 1..m |-> 0])

Advance ==
  /\ phase = "run" /\ c.n < Target /\ ~Halted(c)
  /\ LET m == Target - c.n
         a == RunAll(Case.tm, [c |-> c, prev |-> prev, seen |-> seen], IF m < CHUNK THEN m ELSE CHUNK)
     IN c' = a.c /\ prev' = a.prev /\ seen' = a.seen
  /\ UNCHANGED <<i, phase, verdict>>

\* The quasihalting answer that a certified recurrence implies.
QuasiVerdict(used) ==
  LET dead == {q \in 0..(Len(seen) - 1) : seen[q+1] >= 0 /\ q \notin used}
      last == Max({seen[q+1] : q \in dead})
  IN IF Case.qk = "no" THEN "ok"
     ELSE IF Case.qk = "nq" THEN (IF dead = {} THEN "ok" ELSE "claimed-not-quasihalting")
     ELSE IF dead = {} THEN "claimed-quasihalting"
     ELSE IF Case.qs \notin dead \/ seen[Case.qs + 1] # last THEN "quasihalt-state"
     ELSE IF Case.qn # last + 1 THEN "quasihalt-step" ELSE "ok"

LRVerdict ==
  IF Halted(c) THEN (IF Case.k = "hint" THEN "bad-hint" ELSE "claimed-recurrent-but-halts")
  ELSE LET a == RunExtent(Case.tm, c, Case.p) IN
    IF Case.p < 1 \/ ~RecursE(c, a) THEN (IF Case.k = "hint" THEN "bad-hint" ELSE "not-recurrent")
    ELSE IF Case.k = "hint" THEN QuasiVerdict(a.used)
    ELSE IF a.c.p - c.p # Case.o THEN "offset"
    ELSE IF \E d \in ShorterPeriods(Case.p) : Recurs(Case.tm, c, d) THEN "period-not-minimal"
    ELSE IF Case.exact = 1 /\ c.n > 0 /\ Recurs(Case.tm, prev, Case.p) THEN "start-not-minimal"
    ELSE QuasiVerdict(a.used)

HaltVerdict ==
  IF ~Halted(c) THEN "claimed-halt-but-runs"
  ELSE IF c.n # Case.n THEN "halt-step-count"
  ELSE IF Case.score >= 0 /\ Score(c) # Case.score THEN "halt-score"
  ELSE IF Case.fq >= 0 /\ (c.lq # Case.fq \/ c.ls # Case.fs) THEN "halt-transition"
  ELSE IF Case.qk = "q" THEN "halting-claimed-quasihalting"
  ELSE "ok"

\* Nothing found within n steps: it has not halted, and no recurrence that shows
\* itself between 2^j and 2^(j+1) < = n steps was overlooked.
RECURSIVE Overlooked(_, _, _)
Overlooked(tm, d, n) ==      \* d at step 2^j
  LET r == FoldLeft(LAMBDA a, j :
             IF a.found \/ Halted(a.c) THEN a
             ELSE LET e == Step(tm, a.c)
                      lo == IF e.p < a.lo THEN e.p ELSE a.lo
                      hi == IF e.p > a.hi THEN e.p ELSE a.hi
                  IN [c |-> e, lo |-> lo, hi |-> hi, found |-> e.q = d.q /\ SameAround(d, e, lo, hi)],
             [c |-> d, lo |-> d.p, hi |-> d.p, found |-> FALSE], [j \in 1..d.n |-> 0])
  IN IF d.n >= n THEN FALSE
     ELSE IF r.found THEN TRUE
     ELSE IF Halted(r.c) THEN FALSE
     ELSE Overlooked(tm, r.c, n)

NoneVerdict ==
  IF Halted(c) THEN "halt-overlooked"
  ELSE IF Case.exact = 1 /\ Overlooked(Case.tm, Step(Case.tm, Blank), Case.n) THEN "recurrence-overlooked"
  ELSE "ok"

Judge ==
  /\ phase = "run" /\ (c.n >= Target \/ Halted(c))
  /\ LET v == CASE Case.k \in {"lr", "hint"} -> LRVerdict
                [] Case.k = "halt" -> HaltVerdict
                [] Case.k = "none" -> NoneVerdict
     IN verdict' = v /\ PrintT("V|" \o ToString(Case.id) \o "|" \o v \o "|" \o ToString(c.n))
  /\ phase' = "done"
  /\ UNCHANGED <<i, c, prev, seen>>

Next == Advance \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"", "ok", "bad-hint"}
=============================================================================
