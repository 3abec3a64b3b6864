------------------------------ MODULE RunLength ------------------------------
(***************************************************************************)
(* Compressed tapes: a half tape is a sequence, far end first, of           *)
(* <<block, repetitions>> where a block is the sequence of base symbols (in *)
(* left to right order) that one macro symbol stands for.  A bottom entry   *)
(* with repetitions 0 stands for the infinite blank part.                   *)
(*                                                                          *)
(* Abstract maps a compressed macro configuration to the base configuration *)
(* that it claims to be: this is the refinement mapping from the            *)
(* accelerated simulators to TuringMachine.                                 *)
(***************************************************************************)
EXTENDS TuringMachine

Rep(w, k) == FoldLeft(LAMBDA a, i : a \o w, <<>>, [i \in 1..k |-> 0])

ExpandLeft(h)  == FoldLeft(LAMBDA a, e : a \o Rep(e[1], e[2]), <<>>, h)
ExpandRight(h) == FoldLeft(LAMBDA a, e : a \o Rep(Reverse(e[1]), e[2]), <<>>, h)

\* m: [q, dir, back, l, r];  back is the block remembered "behind" the head (<<>> if none).
\* The head stands on the cell of the half tape it faces that is nearest to it.
Abstract(m) ==
  LET l0 == ExpandLeft(m.l)
      r0 == ExpandRight(m.r)
      l1 == IF m.dir = R THEN l0 \o m.back ELSE l0
      r1 == IF m.dir = L THEN r0 \o Reverse(m.back) ELSE r0
  IN IF m.dir = R
     THEN [q |-> m.q, l |-> l1, s |-> Top(r1), r |-> Pop(r1)]
     ELSE [q |-> m.q, l |-> Pop(l1), s |-> Top(l1), r |-> r1]

\* The tape contents alone (after a halt inside a block the head position is not reported).
AbstractTape(m) ==
  LET l0 == ExpandLeft(m.l)
      r0 == ExpandRight(m.r)
      l1 == IF m.dir = R THEN l0 \o m.back ELSE l0
      r1 == IF m.dir = L THEN r0 \o Reverse(m.back) ELSE r0
  IN l1 \o Reverse(r1)

\* The runs of equal blocks of length b in a half tape (outermost first, blank ones at the far
\* end left out).
Blocks(cells, b) ==
  LET need == (b - (Len(cells) % b)) % b
      w == [j \in 1..need |-> 0] \o cells
  IN [j \in 1..(Len(w) \div b) |-> SubSeq(w, (j - 1) * b + 1, j * b)]
Runs(cells, b) ==
  LET all == FoldLeft(LAMBDA a, e : IF a # <<>> /\ a[Len(a)][1] = e THEN [a EXCEPT ![Len(a)][2] = @ + 1]
                                    ELSE Append(a, <<e, 1>>), <<>>, Blocks(cells, b))
  IN IF all # <<>> /\ \A j \in 1..b : all[1][1][j] = 0 THEN Tail(all) ELSE all
AtLeast(x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : x[j][1] = y[j][1] /\ x[j][2] >= y[j][2]

\* Configuration d looks like the compressed configuration m, every repetition count being at
\* least as large: what a rule that "applies forever" comes back to.
Covers(d, m, b) ==
  LET n == Len(m.back)
      near == IF m.dir = R THEN d.l ELSE d.r
      pad == [j \in 1..n |-> 0] \o near
      behind == SubSeq(pad, Len(pad) - n + 1, Len(pad))
      rest == SubSeq(pad, 1, Len(pad) - n)
      dl == IF m.dir = R THEN rest ELSE Append(d.l, d.s)
      dr == IF m.dir = R THEN Append(d.r, d.s) ELSE rest
  IN /\ d.q = m.q
     /\ behind = (IF m.dir = R THEN m.back ELSE Reverse(m.back))
     /\ AtLeast(Runs(dl, b), Runs(ExpandLeft(m.l), b))
     /\ AtLeast(Runs(dr, b), Runs(ExpandRight(m.r), b))
==============================================================================
