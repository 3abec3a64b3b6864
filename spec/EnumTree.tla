------------------------------ MODULE EnumTree ------------------------------
(***************************************************************************)
(* The enumeration as a transition system: the pending nodes are visited    *)
(* one at a time in any order (every traversal strategy), the enumeration   *)
(* may be cut at any moment and continued from what is pending.  Small      *)
(* sizes are explored exhaustively for                                      *)
(*   Normal    states and symbols appear in order of first use,             *)
(*   Lean      every defined cell is used by the run,                       *)
(* and that no node is reached twice (number of nodes = number of           *)
(* <<node, parent>> pairs).  That every machine of that size, up to         *)
(* renaming and mirror image, follows a path is checked in EnumComplete.    *)
(***************************************************************************)
EXTENDS Enumeration, TLC, IOUtils

S == atoi(IOEnv.STATES)
Y == atoi(IOEnv.SYMBOLS)
LIMIT == atoi(IOEnv.LIMIT)
FIRST == IOEnv.FIRST = "1"
NOHALT == IOEnv.NOHALT = "1"

VARIABLES node, parent
vars == <<node, parent>>

Init == node = (IF FIRST THEN First1RB(S, Y) ELSE BlankTM(S, Y)) /\ parent = <<>>

End(tm) == Run(tm, Blank, LIMIT)

Next == LET e == End(node) IN
        /\ Halted(e)
        /\ \E ch \in Children(node, e.lq, e.ls, NOHALT) : node' = ch
        /\ parent' = <<node, e.lq, e.ls>>
Spec == Init /\ [][Next]_vars

\* The order of first use along the run: new states and symbols come in order.
RECURSIVE Visits(_, _, _, _, _)
Visits(tm, c, qs, ss, n) ==
  IF n = 0 \/ Halted(c) THEN TRUE
  ELSE LET t == Cell(tm, c.q, c.s) IN
       IF IsUndef(t) THEN TRUE
       ELSE /\ t[3] <= qs + 1 /\ t[1] <= ss + 1
            /\ Visits(tm, Step(tm, c), IF t[3] > qs THEN t[3] ELSE qs, IF t[1] > ss THEN t[1] ELSE ss, n - 1)
Normal == Visits(node, Blank, 0, 0, LIMIT)

\* Every defined cell is used by the run: the tree never decides a cell that does not matter yet.
Used(tm) == LET ids == [j \in 1..LIMIT |-> j]
                step(a, j) == IF Halted(a.c) THEN a
                              ELSE [c |-> Step(tm, a.c), u |-> a.u \cup {<<a.c.q + 1, a.c.s + 1>>}]
            IN FoldLeft(step, [c |-> Blank, u |-> {}], ids).u
Lean == DefinedCells(node) \subseteq Used(node)
\* Two explorations, with and without the parent in the view, must find the same number of states:
\* no node has two parents.
NodeView == node
\* Lists the step at which each halting node halts (for the Lazy Beaver value).
HaltStep == LET e == End(node) IN Halted(e) => PrintT("H|" \o ToString(e.n))
==============================================================================
