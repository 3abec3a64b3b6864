---------------------------- MODULE RenamingCases ----------------------------
(***************************************************************************)
(* Judges machines returned by the normalising and permuting code.          *)
(*  iso    d (from state a2 on blank b2) is m (from state a on blank b)     *)
(*         renamed; and their runs stop together, with the same score if    *)
(*         the halting transition of m leaves a mark and k steps suffice    *)
(*  tnf    d is in tree normal form as far as k steps can tell              *)
(*  none   no tree normal form was found in k steps: the run shows too      *)
(*         little of the machine                                            *)
(*  lnf    d is in lexical normal form                                      *)
(*  same   two results have to be the same table                            *)
(***************************************************************************)
EXTENDS Renaming, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
vars == <<i, out>>

RECURSIVE RunTo(_, _, _, _)
RunTo(m, c, b, k) == IF k = 0 \/ Stopped(c) THEN c ELSE RunTo(m, Go(m, c, b), b, k - 1)
RECURSIVE LastCell(_, _, _, _)
LastCell(m, c, b, k) == LET x == CellOf(m, c.i, c.s) IN
  IF k = 0 \/ Stopped(Go(m, c, b)) THEN x ELSE LastCell(m, Go(m, c, b), b, k - 1)
IsoV(c) ==
  IF ~SameSize(c.m, c.d) THEN "wrong-size"
  ELSE IF ~Renamed(c.m, c.a, c.b, c.d, c.a2, c.b2) THEN "not-the-same-machine"
  ELSE LET x == RunTo(c.m, Begin(c.a, c.b), c.b, c.steps)
           y == RunTo(c.d, Begin(c.a2, c.b2), c.b2, c.steps)
       IN IF Stopped(x) # Stopped(y) \/ x.n # y.n THEN "different-run"
          ELSE IF Stopped(x) /\ c.b = 0 /\ c.b2 = 0 /\ LastCell(c.m, Begin(c.a, c.b), c.b, c.steps)[1] # 0
                  /\ Marks(x, c.b) # Marks(y, c.b2)
               THEN "different-score"
          ELSE "ok"
NoneV(c) == LET z == Seen(c.m, Begin(0, 0), c.steps, {0}, {0}) IN
            IF States(c.m) \subseteq z[1] /\ Symbols(c.m) \subseteq z[2] THEN "normal-form-exists" ELSE "ok"
Verdict(c) == CASE c.k = "iso" -> IsoV(c)
                [] c.k = "tnf" -> IF TreeNormal(c.d, c.steps) THEN "ok" ELSE "not-in-tree-normal-form"
                [] c.k = "none" -> NoneV(c)
                [] c.k = "lnf" -> IF Lexical(c.d) THEN "ok" ELSE "not-in-lexical-normal-form"
                [] c.k = "same" -> IF c.m = c.d THEN "ok" ELSE "different-result"
                [] c.k = "parse" -> "unreadable-output"

Init == i \in 1..Len(Cases) /\ out = "no"
Next == /\ out = "no"
        /\ out' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o out')
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
==============================================================================
