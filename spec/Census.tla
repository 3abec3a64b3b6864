------------------------------- MODULE Census -------------------------------
(***************************************************************************)
(* How many machines a node of the tree of tree-normal-form machines stands *)
(* for, among the machines with A0 -> 1RB, Halt = 1RZ and exactly one (or,  *)
(* if wanted, at most one) halting cell; and which machines are a node's    *)
(* neighbours.  Numbers are computed modulo M (they get large).             *)
(***************************************************************************)
EXTENDS Enumeration

IsHalt(x) == ~IsUndef(x) /\ x[3] < 0
HasHalt(tm) == \E x \in CellsOf(tm) : IsHalt(tm[x[1]][x[2]])
Halt1RZ == <<1, R, -1>>

RECURSIVE Falling(_, _)                 \* n * (n-1) * ... * (m+1)
Falling(n, m) == IF n <= m THEN 1 ELSE n * Falling(n - 1, m)
RECURSIVE PowMod(_, _, _)
PowMod(b, e, M) == IF e = 0 THEN 1 % M ELSE (b * PowMod(b, e - 1, M)) % M

UsedState(tm)  == MaxOf({1} \cup {tm[x[1]][x[2]][3] : x \in DefinedCells(tm)}) + 1
UsedSymbol(tm) == MaxOf({1} \cup {tm[x[1]][x[2]][1] : x \in {y \in DefinedCells(tm) : ~IsHalt(tm[y[1]][y[2]])}}) + 1
Opt(tm) == 2 * NumStates(tm) * NumSymbols(tm)
Names(tm) == Falling(NumStates(tm) - 2, NumStates(tm) - UsedState(tm)) * Falling(NumSymbols(tm) - 2, NumSymbols(tm) - UsedSymbol(tm))
Fill(tm, allow, M) ==
  LET u == NumUndefined(tm) IN
  IF HasHalt(tm) THEN PowMod(Opt(tm), u, M)
  ELSE ((IF u >= 1 THEN u * PowMod(Opt(tm), u - 1, M) ELSE 0) + (IF allow THEN PowMod(Opt(tm), u, M) ELSE 0)) % M
StandsFor(tm, allow, M) == ((Names(tm) % M) * Fill(tm, allow, M)) % M
\* The whole space.
SpaceSize(S, Y, allow, M) ==
  LET o == 2 * S * Y IN
  ((S * Y - 1) * PowMod(o, S * Y - 2, M) + (IF allow THEN PowMod(o, S * Y - 1, M) ELSE 0)) % M

\* ------------------------------------------------------------- neighbours
Neighbours(tm) ==
  UNION {{[tm EXCEPT ![x[1]][x[2]] = <<w, d, q>>] : w \in 0..(NumSymbols(tm) - 1), d \in {L, R}, q \in 0..(NumStates(tm) - 1)} \ {tm} :
         x \in {y \in DefinedCells(tm) : ~IsHalt(tm[y[1]][y[2]])}}
==============================================================================
