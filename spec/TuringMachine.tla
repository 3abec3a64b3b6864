---------------------------- MODULE TuringMachine ----------------------------
(***************************************************************************)
(* The meaning of a (base) Turing machine: the single source of truth that  *)
(* every other module of this specification refers to.                      *)
(*                                                                          *)
(* A machine is a sequence of rows (one per state, state q is row q+1), a   *)
(* row is a sequence of cells (symbol s is cell s+1) and a cell is          *)
(* <<symbol written, direction, next state>>.  Direction 0 is left and 1 is *)
(* right, next state -1 is "halt".  An undefined cell has a negative first  *)
(* component; it behaves as "write 1, go right, halt" (the convention of    *)
(* every simulator in the repository) but is reported as "undefined".       *)
(*                                                                          *)
(* A configuration is a record                                              *)
(*   q    current state (-1 once halted)                                    *)
(*   l,r  the half tapes left / right of the head, as stacks whose LAST     *)
(*        element is the cell next to the head (blank beyond the bottom)    *)
(*   s    the symbol under the head                                         *)
(*   n    number of steps performed                                         *)
(*   p    head position relative to the start cell                          *)
(*   lq, ls  state and symbol of the last transition taken                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

L == 0
R == 1
HALT == -1

NumStates(tm)  == Len(tm)
NumSymbols(tm) == Len(tm[1])

Cell(tm, q, s) == tm[q+1][s+1]
IsUndef(c)     == c[1] < 0
Behaviour(c)   == IF IsUndef(c) THEN <<1, R, HALT>> ELSE c

\* A well-formed machine of the repository (no STAY moves, states / symbols in range).
WellFormed(tm) ==
  \A q \in 1..Len(tm) : /\ Len(tm[q]) = Len(tm[1])
                        /\ \A s \in 1..Len(tm[q]) :
                             \/ IsUndef(tm[q][s])
                             \/ /\ tm[q][s][1] \in 0..(NumSymbols(tm)-1)
                                /\ tm[q][s][2] \in {L, R}
                                /\ tm[q][s][3] \in {HALT} \cup 0..(NumStates(tm)-1)

Top(st) == IF st = <<>> THEN 0 ELSE st[Len(st)]
Pop(st) == IF st = <<>> THEN st ELSE SubSeq(st, 1, Len(st)-1)
\* Pushing a blank on an empty half tape is invisible: stacks stay canonical at the bottom.
Push(st, x) == IF st = <<>> /\ x = 0 THEN st ELSE Append(st, x)

Blank == [q |-> 0, l |-> <<>>, s |-> 0, r |-> <<>>, n |-> 0, p |-> 0, lq |-> 0, ls |-> 0]

Halted(c) == c.q = HALT

Step(tm, c) ==
  LET t == Behaviour(Cell(tm, c.q, c.s)) IN
  IF t[2] = R
  THEN [q |-> t[3], l |-> Push(c.l, t[1]), s |-> Top(c.r), r |-> Pop(c.r),
        n |-> c.n + 1, p |-> c.p + 1, lq |-> c.q, ls |-> c.s]
  ELSE [q |-> t[3], l |-> Pop(c.l), s |-> Top(c.l), r |-> Push(c.r, t[1]),
        n |-> c.n + 1, p |-> c.p - 1, lq |-> c.q, ls |-> c.s]

\* k further steps (fewer if the machine halts first).
Run(tm, c, k) ==
  FoldLeft(LAMBDA a, i : IF Halted(a) THEN a ELSE Step(tm, a), c, [i \in 1..k |-> 0])

\* The halting transition was not in the table.
HaltedUndefined(tm, c) == Halted(c) /\ IsUndef(Cell(tm, c.lq, c.ls))

------------------------------------------------------------------------------
(* Tapes *)

RECURSIVE TrimBottom(_)
TrimBottom(st) == IF st # <<>> /\ st[1] = 0 THEN TrimBottom(Tail(st)) ELSE st

CountNonZero(st) == FoldLeft(LAMBDA a, x : IF x # 0 THEN a + 1 ELSE a, 0, st)

\* Number of non-blank cells of the tape.
Score(c) == CountNonZero(c.l) + CountNonZero(c.r) + (IF c.s # 0 THEN 1 ELSE 0)

\* The whole tape, left to right, and trimmed at both ends.
WholeTape(c) == c.l \o <<c.s>> \o Reverse(c.r)
TrimBoth(w) == Reverse(TrimBottom(Reverse(TrimBottom(w))))

\* Canonical half tape: no blanks at the far end.
Canon(st) == TrimBottom(st)

SameConfig(a, b) ==
  a.q = b.q /\ a.s = b.s /\ Canon(a.l) = Canon(b.l) /\ Canon(a.r) = Canon(b.r)
==============================================================================
