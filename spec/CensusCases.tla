---------------------------- MODULE CensusCases ----------------------------
(* Recorded counts, neighbours and printed tables, judged by Census. *)
EXTENDS Census, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
vars == <<i, out>>
Mods == <<9973, 9967, 9949>>
Verdict(c) ==
  CASE c.k = "count" -> IF c.n = [j \in 1..3 |-> StandsFor(c.tm, c.allow = 1, Mods[j])] THEN "ok" ELSE "wrong-count"
    [] c.k = "total" -> IF c.n = [j \in 1..3 |-> SpaceSize(c.S, c.Y, c.allow = 1, Mods[j])] THEN "ok" ELSE "wrong-total"
    [] c.k = "adjacent" -> LET want == Neighbours(c.tm) IN
         IF c.after # c.tm THEN "input-changed"
         ELSE IF Range(c.out) # want THEN "wrong-neighbours"
         ELSE IF Len(c.out) # Cardinality(want) THEN "listed-twice" ELSE "ok"
    [] c.k = "table" -> IF c.out = c.tm THEN "ok" ELSE "wrong-table"
Init == i \in 1..Len(Cases) /\ out = "no"
Next == /\ out = "no"
        /\ out' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o out')
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
==============================================================================
