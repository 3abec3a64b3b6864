----------------------------- MODULE EnumCases -----------------------------
(***************************************************************************)
(* Judges the records an enumeration wrote.  A case is one record: the node  *)
(* tm (with the cell it halted in undefined again), the verdict and what    *)
(* goes with it.  TLC runs the node, evaluates the verdict and says which   *)
(* children the tree has below it (only halting nodes have any).            *)
(*   k = "halt": halts with step n (score, fq, fs if >= 0) on an undefined  *)
(*       cell;  "inf": must not halt within n steps;  "unk": as inf (n is   *)
(*       the limit within which the enumerator promises to see a halt)      *)
(***************************************************************************)
EXTENDS Enumeration, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
vars == <<i, out>>

Verdict(cs, c) ==
  CASE cs.k = "halt" ->
        IF ~Halted(c) THEN "claimed-halt-but-runs"
        ELSE IF c.n # cs.n THEN "halt-step-count"
        ELSE IF cs.score >= 0 /\ Score(c) # cs.score THEN "halt-score"
        ELSE IF cs.fq >= 0 /\ (c.lq # cs.fq \/ c.ls # cs.fs) THEN "halt-transition"
        ELSE IF ~IsUndef(Cell(cs.tm, c.lq, c.ls)) THEN "halt-not-undefined"
        ELSE "ok"
    [] OTHER -> IF Halted(c) THEN (IF cs.k = "inf" THEN "claimed-infinite-but-halts" ELSE "halting-not-noticed") ELSE "ok"

ChildText(cs, c) ==
  IF cs.k # "halt" \/ ~Halted(c) THEN ""
  ELSE LET chs == Children(cs.tm, c.lq, c.ls, cs.nohalt = 1)
       IN FoldSet(LAMBDA x, a : a \o "," \o Text(x), "", chs)

Init == i \in 1..Len(Cases) /\ out = "no"
Next == /\ out = "no"
        /\ LET cs == Cases[i]
               c == Run(cs.tm, Blank, cs.n)
           IN /\ out' = Verdict(cs, c)
              /\ PrintT("V|" \o ToString(cs.id) \o "|" \o out' \o "|" \o Text(cs.tm) \o "|" \o ChildText(cs, c))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == out \in {"no", "ok"}
==============================================================================
