------------------------------ MODULE Renaming ------------------------------
(***************************************************************************)
(* Renaming the states and symbols of a machine and mirroring it.           *)
(* A machine is run from a start state on a tape full of its blank symbol   *)
(* (tree-normal-form machines: state 0 and symbol 0).                       *)
(* Tables are as in TuringMachine.  A renaming is <<p, q, swap>>: state i   *)
(* becomes p[i], symbol s becomes q[s], and left and right are exchanged if *)
(* swap = 1.  What a halting transition writes and where it goes is not     *)
(* kept (it becomes "write 1, go right").                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

States(m) == 0..(Len(m) - 1)
Symbols(m) == 0..(Len(m[1]) - 1)
CellOf(m, i, s) == m[i + 1][s + 1]
Kind(c) == IF c[1] < 0 THEN "undefined" ELSE IF c[3] < 0 THEN "halt" ELSE "run"
Perms(n) == {f \in [0..(n - 1) -> 0..(n - 1)] : \A i, j \in 0..(n - 1) : i # j => f[i] # f[j]}

CellMatches(c, d, p, q, swap) ==
  /\ Kind(c) = Kind(d)
  /\ Kind(c) = "run" => d = <<q[c[1]], IF swap = 1 THEN 1 - c[2] ELSE c[2], p[c[3]]>>
IsRenaming(m, d, p, q, swap) ==
  \A i \in States(m) : \A s \in Symbols(m) : CellMatches(CellOf(m, i, s), CellOf(d, p[i], q[s]), p, q, swap)
SameSize(m, d) == Len(m) = Len(d) /\ Len(m[1]) = Len(d[1])
\* d, started in state a2 on blank b2, is m, started in state a on blank b, renamed.
Renamed(m, a, b, d, a2, b2) ==
  SameSize(m, d) /\ \E p \in {f \in Perms(Len(m)) : f[a] = a2} : \E q \in {f \in Perms(Len(m[1])) : f[b] = b2} :
                      \E swap \in 0..1 : IsRenaming(m, d, p, q, swap)
Rename(m, p, q, swap) ==
  [i \in 1..Len(m) |-> [s \in 1..Len(m[1]) |->
     LET i0 == CHOOSE j \in States(m) : p[j] = i - 1
         s0 == CHOOSE j \in Symbols(m) : q[j] = s - 1
         c == CellOf(m, i0, s0)
     IN CASE Kind(c) = "run" -> <<q[c[1]], IF swap = 1 THEN 1 - c[2] ELSE c[2], p[c[3]]>>
          [] Kind(c) = "halt" -> <<1, 1, -1>>
          [] OTHER -> <<-1, -1, -1>>]]

------------------------------------------------------------------------------
\* Runs with any blank: half tapes are stacks, l and r, next cell last.
PTop(st, b) == IF st = <<>> THEN b ELSE st[Len(st)]
PPop(st) == IF st = <<>> THEN st ELSE SubSeq(st, 1, Len(st) - 1)
Begin(a, b) == [i |-> a, s |-> b, l |-> <<>>, r |-> <<>>, n |-> 0]
Go(m, c, b) ==
  LET x == CellOf(m, c.i, c.s)
      t == IF x[1] < 0 THEN <<1, 1, -1>> ELSE x
  IN IF t[2] = 1
     THEN [i |-> t[3], s |-> PTop(c.r, b), l |-> Append(c.l, t[1]), r |-> PPop(c.r), n |-> c.n + 1]
     ELSE [i |-> t[3], s |-> PTop(c.l, b), l |-> PPop(c.l), r |-> Append(c.r, t[1]), n |-> c.n + 1]
Stopped(c) == c.i < 0
NonBlank(st, b) == Cardinality({k \in 1..Len(st) : st[k] # b})
Marks(c, b) == NonBlank(c.l, b) + NonBlank(c.r, b) + (IF c.s # b THEN 1 ELSE 0)

\* Configurations that correspond (stacks compared up to blanks at the bottom).
RECURSIVE Strip(_, _)
Strip(st, b) == IF st # <<>> /\ st[1] = b THEN Strip(Tail(st), b) ELSE st
MapStack(st, q) == [k \in 1..Len(st) |-> q[st[k]]]
Corresponds(c, b, d, b2, p, q, swap) ==
  LET dl == IF swap = 1 THEN d.r ELSE d.l
      dr == IF swap = 1 THEN d.l ELSE d.r
  IN /\ d.i = p[c.i] /\ d.s = q[c.s] /\ d.n = c.n
     /\ MapStack(Strip(c.l, b), q) = Strip(dl, b2)
     /\ MapStack(Strip(c.r, b), q) = Strip(dr, b2)

------------------------------------------------------------------------------
\* Tree normal form, as far as a run of k steps can tell: the first move is to the right,
\* new states are entered and new symbols written in numerical order.
RECURSIVE InOrder(_, _, _, _, _)
InOrder(m, c, k, mq, ms) ==
  IF k = 0 \/ Stopped(c) THEN TRUE
  ELSE LET x == CellOf(m, c.i, c.s) IN
       IF Kind(x) # "run" THEN TRUE
       ELSE /\ x[3] <= mq + 1 /\ x[1] <= ms + 1
            /\ InOrder(m, Go(m, c, 0), k - 1, IF x[3] > mq THEN x[3] ELSE mq, IF x[1] > ms THEN x[1] ELSE ms)
TreeNormal(m, k) == LET x == CellOf(m, 0, 0) IN
  /\ Kind(x) = "run" => x[2] = 1
  /\ InOrder(m, Begin(0, 0), k, 0, 0)
\* The states entered and the symbols written in k steps; halting ends the run.
RECURSIVE Seen(_, _, _, _, _)
Seen(m, c, k, qs, ss) ==
  IF k = 0 \/ Stopped(c) THEN <<qs, ss>>
  ELSE LET x == CellOf(m, c.i, c.s) IN
       IF Kind(x) # "run" THEN <<qs, ss>>
       ELSE Seen(m, Go(m, c, 0), k - 1, qs \cup {x[3]}, ss \cup {x[1]})

\* Lexical normal form: no renaming has a table that comes first in the dictionary.
\* Cells are compared as they are printed: undefined first, then symbol, L before R, state (halt last).
CellKey(c) == IF c[1] < 0 THEN <<-1, 0, 0>> ELSE IF c[3] < 0 THEN <<c[1], c[2], 99>> ELSE c
RECURSIVE Less(_, _)
Less(x, y) == IF x = <<>> THEN FALSE
              ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Less(Tail(x), Tail(y))
CellLess(c, d) == Less(CellKey(c), CellKey(d))
TableLess(m, d) ==
  \E i \in 1..Len(m) : \E s \in 1..Len(m[1]) :
     /\ CellLess(m[i][s], d[i][s])
     /\ \A j \in 1..Len(m) : \A t \in 1..Len(m[1]) :
          (j < i \/ (j = i /\ t < s)) => CellKey(m[j][t]) = CellKey(d[j][t])
Lexical(m) == \A p \in Perms(Len(m)) : \A q \in Perms(Len(m[1])) : \A swap \in 0..1 :
                ~TableLess(Rename(m, p, q, swap), m)
=============================================================================
