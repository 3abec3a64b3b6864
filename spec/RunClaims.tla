------------------------------ MODULE RunClaims ------------------------------
(***************************************************************************)
(* Validation of claims that the implementation made about runs of machines *)
(* (recorded from the real code, CASES is a JSON file) against the          *)
(* semantics in TuringMachine.                                              *)
(*                                                                          *)
(* A case is [id, tm, track, init, obs]: a machine, an optional initial     *)
(* configuration and a sequence of claims, by ascending step number n.  TLC *)
(* runs the machine of the specification from there (from the blank tape if *)
(* init is empty) and evaluates each claim at its step.  Claims:            *)
(*  cfg    after n steps the (compressed) configuration is m                *)
(*  dir    after n steps: state q, head position p, cells w starting at     *)
(*         position lo, everything else blank                               *)
(*  win    after n steps: state q, cells w around the head, which is on the *)
(*         h-th of them (and, if abs = 1, at position p)                    *)
(*  halt   the machine halts with its n-th step; score / fq, fs (state and  *)
(*         symbol of the halting transition) / undef / tape m if claimed    *)
(*  alive  the machine has not halted within n steps                        *)
(*  inf    the machine never halts (falsified if it halts within n steps)   *)
(*  seen   for each <<state, step>> in w, step is the last time < n that    *)
(*         the machine was in that state, and no other state was ever seen  *)
(*  reach  the configuration m occurs at some step after the previous claim *)
(*         (step counts not reported); inconclusive if the machine neither  *)
(*         reaches it nor halts within n steps                              *)
(*  again  at one of the steps from..n the configuration is like m (made of *)
(*         blocks of length b), no repetition count being smaller            *)
(*  halt?  as halt, without a step count; inconclusive after n steps        *)
(*  quasi  the states in dead are never entered at a step >= from           *)
(*  last   state q is the one in which the n-th step was made               *)
(***************************************************************************)
EXTENDS RunLength, TLC, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.CASES)
CHUNK == 200

VARIABLES i,       \* case index
          k,       \* next claim
          c,       \* configuration of the specified machine
          seen,    \* seen[q+1] = last step at which state q was left, -1 if never (<<>>: not tracked)
          verdict
vars == <<i, k, c, seen, verdict>>

Case == Cases[i]

StepSeen(tm, a) ==
  IF Halted(a.c) THEN a
  ELSE [c |-> Step(tm, a.c),
        seen |-> IF a.seen = <<>> THEN <<>> ELSE [a.seen EXCEPT ![a.c.q + 1] = a.c.n]]
RunSeen(tm, a, m) == FoldLeft(LAMBDA x, j : StepSeen(tm, x), a, [j \in 1..m |-> 0])

ClaimedHalt(tm, d, o) ==
  IF ~Halted(d) THEN "claimed-halt-but-runs"
  ELSE IF d.n # o.n THEN "halt-step-count"
  ELSE IF o.score >= 0 /\ Score(d) # o.score THEN "halt-score"
  ELSE IF o.fq >= 0 /\ (d.lq # o.fq \/ d.ls # o.fs) THEN "halt-transition"
  ELSE IF o.undef \in {0, 1} /\ (o.undef = 1) # IsUndef(Cell(tm, d.lq, d.ls)) THEN "halt-undefined-flag"
  ELSE IF o.hastape = 1 /\ TrimBoth(AbstractTape(o.m)) # TrimBoth(WholeTape(d)) THEN "halt-tape"
  ELSE "ok"

DirConfig(d, o) ==
  LET w == WholeTape(d)
      lo == d.p - Len(d.l)        \* position of w[1]
      at(x) == IF x >= lo /\ x < lo + Len(w) THEN w[x - lo + 1] ELSE 0
      inW(x) == x >= o.lo /\ x < o.lo + Len(o.w)
  IN IF d.q # o.q THEN "state"
     ELSE IF d.p # o.p THEN "position"
     ELSE IF \E j \in 1..Len(o.w) : o.w[j] # at(o.lo + j - 1) THEN "tape"
     ELSE IF \E x \in lo..(lo + Len(w) - 1) : ~inW(x) /\ at(x) # 0 THEN "tape"
     ELSE "ok"

WinConfig(d, o) ==
  LET w == WholeTape(d)
      lo == d.p - Len(d.l)
      at(x) == IF x >= lo /\ x < lo + Len(w) THEN w[x - lo + 1] ELSE 0
  IN IF d.q # o.q THEN "state"
     ELSE IF o.abs = 1 /\ d.p # o.p THEN "position"
     ELSE IF \E j \in 1..Len(o.w) : o.w[j] # at(d.p + j - o.h) THEN "tape"
     ELSE "ok"

SeenOk(o) ==
  LET claimed == {o.w[j][1] : j \in 1..Len(o.w)} IN
  IF \E j \in 1..Len(o.w) : seen[o.w[j][1] + 1] # o.w[j][2] THEN "last-seen-step"
  ELSE IF \E q \in 0..(Len(seen) - 1) : seen[q+1] >= 0 /\ q \notin claimed THEN "seen-state-omitted"
  ELSE "ok"

\* `from` and `dead`: at step n none of the dead states was used at or after step `from`.
QuasiOk(o) ==
  IF \E j \in 1..Len(o.dead) : seen[o.dead[j] + 1] >= o.from THEN "dead-state-entered"
  ELSE "ok"

Judge(tm, d, o) ==
  CASE o.k = "halt?" -> IF Halted(d) THEN ClaimedHalt(tm, d, [o EXCEPT !.n = d.n]) ELSE "inconclusive"
    [] o.k = "reach" -> IF SameConfig(Abstract(o.m), d) THEN "ok"
                        ELSE IF Halted(d) THEN "configuration-never-reached" ELSE "inconclusive"
    [] o.k = "again" -> IF Covers(d, o.m, o.b) THEN "ok" ELSE "claimed-infinite-but-does-not-recur"
    [] o.k = "halt"  -> ClaimedHalt(tm, d, o)
    [] o.k = "inf"   -> IF Halted(d) THEN "claimed-infinite-but-halts" ELSE "ok"
    [] o.k = "alive" -> IF Halted(d) THEN "claimed-running-but-halted" ELSE "ok"
    [] o.k = "cfg"   -> IF d.n # o.n THEN "halted-before"
                        ELSE IF ~SameConfig(Abstract(o.m), d) THEN "configuration" ELSE "ok"
    [] o.k = "dir"   -> IF d.n # o.n THEN "halted-before" ELSE DirConfig(d, o)
    [] o.k = "win"   -> IF d.n # o.n THEN "halted-before" ELSE WinConfig(d, o)
    [] o.k = "seen"  -> IF d.n # o.n THEN "halted-before" ELSE SeenOk(o)
    [] o.k = "quasi" -> QuasiOk(o)
    [] o.k = "last"  -> IF d.n # o.n THEN "halted-before" ELSE IF d.lq # o.q THEN "last-visit-step" ELSE "ok"
    [] OTHER -> "unknown-claim"

StartConfig(cs) ==
  IF cs.init = <<>> THEN Blank
  ELSE LET a == Abstract(cs.init[1])
       IN [Blank EXCEPT !.q = a.q, !.l = Canon(a.l), !.s = a.s, !.r = Canon(a.r)]

Init == /\ i \in 1..Len(Cases)
        /\ k = 1
        /\ c = StartConfig(Cases[i])
        /\ seen = IF Cases[i].track = 1 THEN [q \in 1..Len(Cases[i].tm) |-> -1] ELSE <<>>
        /\ verdict = "run"

Report(v) == PrintT("V|" \o ToString(Case.id) \o "|" \o v \o "|" \o ToString(k) \o "|" \o ToString(c.n))

\* While looking for a configuration without known step number, stop where it occurs.
Hit(d, o) == IF o.k = "reach" THEN SameConfig(Abstract(o.m), d)
             ELSE d.n >= o.from /\ d.q = o.m.q /\ Covers(d, o.m, o.b)
SearchFor(tm, a, o, x) ==
  LET far == Abstract(o.m)
      hit(d) == d.q = far.q /\ d.s = far.s /\ Hit(d, o)
  IN FoldLeft(LAMBDA b, j : IF hit(b.c) THEN b ELSE StepSeen(tm, b), a, [j \in 1..x |-> 0])
Sought(o) == o.k \in {"reach", "again"}

Search ==
  /\ verdict = "run" /\ k <= Len(Case.obs) /\ Sought(Case.obs[k])
  /\ c.n < Case.obs[k].n /\ ~Halted(c)
  /\ ~Hit(c, Case.obs[k])
  /\ LET m == Case.obs[k].n - c.n
         a == SearchFor(Case.tm, [c |-> c, seen |-> seen], Case.obs[k], IF m < CHUNK THEN m ELSE CHUNK)
     IN c' = a.c /\ seen' = a.seen
  /\ UNCHANGED <<i, k, verdict>>

\* Let the machine run towards the step the next claim talks about.
Advance ==
  /\ verdict = "run" /\ k <= Len(Case.obs)
  /\ ~Sought(Case.obs[k])
  /\ c.n < Case.obs[k].n /\ ~Halted(c)
  /\ LET m == Case.obs[k].n - c.n
         a == RunSeen(Case.tm, [c |-> c, seen |-> seen], IF m < CHUNK THEN m ELSE CHUNK)
     IN c' = a.c /\ seen' = a.seen
  /\ UNCHANGED <<i, k, verdict>>

\* The claim's step (or the halt) is reached: evaluate it.
Evaluate ==
  /\ verdict = "run" /\ k <= Len(Case.obs)
  /\ \/ c.n >= Case.obs[k].n \/ Halted(c)
     \/ Sought(Case.obs[k]) /\ Hit(c, Case.obs[k])
  /\ LET v == IF Case.obs[k].n < c.n /\ Case.obs[k].k \notin {"inf", "reach", "again", "halt?"} /\ ~(Halted(c) /\ Case.obs[k].k = "halt")
              THEN "step-count-decreased" ELSE Judge(Case.tm, c, Case.obs[k])
     IN IF v = "ok" THEN k' = k + 1 /\ UNCHANGED verdict
        ELSE k' = k /\ verdict' = v /\ Report(v)
  /\ UNCHANGED <<i, c, seen>>

Finish ==
  /\ verdict = "run" /\ k > Len(Case.obs)
  /\ verdict' = "ok" /\ Report("ok")
  /\ UNCHANGED <<i, k, c, seen>>

Next == Advance \/ Search \/ Evaluate \/ Finish
Spec == Init /\ [][Next]_vars

\* The property: no recorded claim is contradicted by the specification.
Conforms == verdict \in {"run", "ok", "inconclusive"}
==============================================================================
