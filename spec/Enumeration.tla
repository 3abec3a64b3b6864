---------------------------- MODULE Enumeration ----------------------------
(***************************************************************************)
(* Tree normal form enumeration.  A node is a partially defined machine.    *)
(* Running it from the blank tape either needs an undefined cell (the node  *)
(* is "halting": its children define that cell in every way that does not   *)
(* merely rename states or symbols) or it does not.                         *)
(***************************************************************************)
EXTENDS TuringMachine, FiniteSets, FiniteSetsExt, TLC

Undef == <<-1, -1, -1>>
BlankTM(S, Y) == [q \in 1..S |-> [s \in 1..Y |-> Undef]]
First1RB(S, Y) == [BlankTM(S, Y) EXCEPT ![1][1] = <<1, R, 1>>]

CellsOf(tm) == (1..NumStates(tm)) \X (1..NumSymbols(tm))
DefinedCells(tm) == {x \in CellsOf(tm) : ~IsUndef(tm[x[1]][x[2]])}
NumUndefined(tm) == NumStates(tm) * NumSymbols(tm) - Cardinality(DefinedCells(tm))

MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
\* Largest state / symbol that is in use (the start state and the blank always are).
MaxState(tm)  == MaxOf({0} \cup {tm[x[1]][x[2]][3] : x \in DefinedCells(tm)})
MaxSymbol(tm) == MaxOf({0} \cup {tm[x[1]][x[2]][1] : x \in DefinedCells(tm)})

Min2(a, b) == IF a < b THEN a ELSE b

\* What the undefined cell <<q, s>> of tm may become.
CellChoices(tm) ==
  {<<w, d, q>> : w \in 0..Min2(NumSymbols(tm) - 1, MaxSymbol(tm) + 1),
                 d \in IF DefinedCells(tm) = {} THEN {R} ELSE {L, R},
                 q \in 0..Min2(NumStates(tm) - 1, MaxState(tm) + 1)}

\* The last undefined cell is left as the only way to halt unless machines without one are wanted.
Children(tm, q, s, noHalt) ==
  IF noHalt \/ NumUndefined(tm) > 1
  THEN {[tm EXCEPT ![q + 1][s + 1] = x] : x \in CellChoices(tm)}
  ELSE {}

DirName(d) == IF d = L THEN "L" ELSE "R"
StateNames == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y">>
CellText(x) == IF IsUndef(x) THEN "---"
               ELSE ToString(x[1]) \o DirName(x[2]) \o (IF x[3] < 0 THEN "Z" ELSE StateNames[x[3] + 1])
RowText(row) == FoldLeft(LAMBDA a, x : a \o CellText(x), "", row)
Text(tm) == FoldLeft(LAMBDA a, j : IF j = 1 THEN RowText(tm[1]) ELSE a \o "_" \o RowText(tm[j]),
                     "", [j \in 1..Len(tm) |-> j])
==============================================================================
